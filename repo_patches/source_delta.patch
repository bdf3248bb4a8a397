From a5355ac4296abca26124484e180618cec32b7988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 001/156] fix: safeDivision clears the error flag when the
 division is exact

---
 il/core/math/safe_arithmetic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 0e68996..45d6f5d 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -123,6 +123,7 @@ inline int safeDivision(int a, int b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -272,6 +273,7 @@ inline long safeDivision(long a, long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -402,6 +404,7 @@ inline long long safeDivision(long long a, long long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
-- 
2.43.0


From 29f52bed64436cc5d95524ad4553f16c66730838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 002/156] fix: safeProduct2Positive reports the overflow of
 twice a large number

---
 il/core/math/safe_arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 45d6f5d..4be47d8 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -209,7 +209,7 @@ inline long safeDifference(long a, long b, il::io_t, bool& error) {
 
 inline long safeProduct2Positive(long a, il::io_t, bool& error) {
   const unsigned long ua = static_cast<unsigned long>(a);
-  constexpr unsigned long max = static_cast<unsigned long>(2)
+  constexpr unsigned long max = static_cast<unsigned long>(1)
                                 << (sizeof(unsigned long) * 8 - 2);
   if (ua < max) {
     error = false;
-- 
2.43.0


From 9deb4a6f7340fb8710c7a7fa98fc5d2272e75acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 003/156] fix: Array::Set only assigns the elements of the
 array

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index dea1df1..d3975a1 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -660,7 +660,7 @@ T& Array<T>::operator[](il::int_t i) {
 
 template <typename T>
 void Array<T>::Set(const T& x) {
-  for (il::int_t i = 0; i < capacity_ - data_; ++i) {
+  for (il::int_t i = 0; i < size(); ++i) {
     data_[i] = x;
   }
 }
-- 
2.43.0


From 8908d35d2b3719de4a0fd0f263a6c88d11ab7a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 004/156] fix: Array copy assignment constructs the elements
 beyond the old size

---
 il/container/1d/Array.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index d3975a1..3b11a2b 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -585,9 +585,13 @@ Array<T>& Array<T>::operator=(const Array<T>& v) {
     if (il::isTrivial<T>::value) {
       memcpy(data_, v.data_, n * sizeof(T));
     } else {
-      for (il::int_t i = 0; i < n; ++i) {
+      const il::int_t n_assign = size() < n ? size() : n;
+      for (il::int_t i = 0; i < n_assign; ++i) {
         data_[i] = v.data_[i];
       }
+      for (il::int_t i = n_assign; i < n; ++i) {
+        new (data_ + i) T(v.data_[i]);
+      }
       for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
-- 
2.43.0


From bb8064feab0fe8b61360a42b2ba21d2db4ac7929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 005/156] fix: Array allocates the capacity requested when an
 aligned array grows

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 3b11a2b..5bce3c4 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -951,7 +951,7 @@ void Array<T>::IncreaseCapacity(il::int_t r) {
     new_data = il::allocateArray<T>(r);
     new_shift = 0;
   } else {
-    new_data = il::allocateArray<T>(n, align_r_, align_mod_, il::io, new_shift);
+    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
   }
   if (data_) {
     if (il::isTrivial<T>::value) {
-- 
2.43.0


From ba32c4010e21d1f482ec838d37f3893f1744a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 006/156] fix: Array::Append accepts an element of the array
 itself when it grows

---
 il/container/1d/Array.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 5bce3c4..ead4d1b 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -837,13 +837,12 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
+    T x_copy = std::move(x);
     IncreaseCapacity(new_capacity);
+    new (size_) T(std::move(x_copy));
+  } else {
+    new (size_) T(std::move(x));
   }
-  //  if (il::isTrivial<T>::value) {
-  //    *size_ = std::move(x);
-  //  } else {
-  new (size_) T(std::move(x));
-  //  }
   ++size_;
 }
 
@@ -859,9 +858,12 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
+    T x(std::forward<Args>(args)...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(std::forward<Args>(args)...);
+    new (size_) T(std::move(x));
+  } else {
+    new (size_) T(std::forward<Args>(args)...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From e0ff8b92c0ecfca9a4907add228d61ceebd3f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 007/156] fix: Array::Resize accepts an element of the array
 itself when it grows

---
 il/container/1d/Array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index ead4d1b..07a9405 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -744,14 +744,15 @@ void Array<T>::Resize(il::int_t n, const T& x) {
     }
   } else {
     const il::int_t n_old = size();
+    const T x_copy = x;
     IncreaseCapacity(n);
     if (il::isTrivial<T>::value) {
       for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = x;
+        data_[i] = x_copy;
       }
     } else {
       for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T{x};
+        new (data_ + i) T{x_copy};
       }
     }
   }
-- 
2.43.0


From 178a12238e251624936ed42974135be6e0ed21fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 008/156] fix: SmallArray move assignment takes the elements of
 its source

---
 il/container/1d/SmallArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index bc51f0a..d3ab9f4 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -405,7 +405,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       } else {
         for (il::int_t i = n - 1; i >= 0; --i) {
           new (data_ + i) T(std::move(A.data_[i]));
-          (data_ + i)->~T();
+          (A.data_ + i)->~T();
         }
       }
       size_ = data_ + n;
@@ -415,7 +415,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = A.size_;
       capacity_ = A.capacity_;
     }
-    data_ = reinterpret_cast<T*>(small_data_);
+    A.data_ = reinterpret_cast<T*>(A.small_data_);
     A.size_ = A.data_ + 0;
     A.capacity_ = A.data_ + small_size;
   }
-- 
2.43.0


From 32959e57ef35ed7c3aa2f3407ade00bd13b0a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 009/156] fix: SmallArray::Resize keeps the elements of objects
 within the capacity

---
 il/container/1d/SmallArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index d3ab9f4..a514866 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -479,7 +479,7 @@ void SmallArray<T, small_size>::Resize(il::int_t n) {
       }
 #endif
     } else {
-      for (il::int_t i = size() - 1; i >= 0; --i) {
+      for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-- 
2.43.0


From dd29741b8c7eadebcfe2c1f298b541d6b86a9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 010/156] fix: SmallArray copy assignment constructs the
 elements beyond the old size

---
 il/container/1d/SmallArray.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index a514866..57fa634 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -372,9 +372,13 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
           (data_ + i)->~T();
         }
       }
-      for (il::int_t i = 0; i < n; ++i) {
+      const il::int_t n_assigned = size() < n ? size() : n;
+      for (il::int_t i = 0; i < n_assigned; ++i) {
         data_[i] = A.data_[i];
       }
+      for (il::int_t i = n_assigned; i < n; ++i) {
+        new (data_ + i) T(A.data_[i]);
+      }
       size_ = data_ + n;
     }
   }
-- 
2.43.0


From e7b713aebcde8316b00770dd91f122242cac641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 011/156] fix: SmallArray::Append accepts an element of the
 array itself when it grows

---
 il/container/1d/SmallArray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index 57fa634..ee0d013 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -554,9 +554,12 @@ void SmallArray<T, small_size>::Append(Args&&... args) {
     if (error) {
       il::abort();
     }
+    T x(std::forward<Args>(args)...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(args...);
+    new (size_) T(std::move(x));
+  } else {
+    new (size_) T(std::forward<Args>(args)...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From 1a794a794b9867a477cbc88a7f26912ebc3c9c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:35 +0000
Subject: [PATCH 012/156] fix: Array::Append constructs the element directly in
 its place when it grows

---
 il/container/1d/Array.h | 44 ++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 07a9405..6b16c60 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -265,6 +265,14 @@ class Array {
    */
   void IncreaseCapacity(il::int_t r);
 
+  /* \brief Used internally to allocate the memory for a capacity of r
+   */
+  T* allocateLarger(il::int_t r, il::io_t, il::int_t& shift) const;
+
+  /* \brief Used internally to move the elements to the memory given
+   */
+  void MoveTo(T* new_data, il::int_t new_shift, il::int_t r);
+
   /* \brief Used internally in debug mode to check the invariance of the object
    */
   bool invariance() const;
@@ -838,9 +846,11 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
-    T x_copy = std::move(x);
-    IncreaseCapacity(new_capacity);
-    new (size_) T(std::move(x_copy));
+    // The new element is constructed first as x might be one of our elements
+    il::int_t new_shift;
+    T* new_data = allocateLarger(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::move(x));
+    MoveTo(new_data, new_shift, new_capacity);
   } else {
     new (size_) T(std::move(x));
   }
@@ -859,9 +869,12 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
-    T x(std::forward<Args>(args)...);
-    IncreaseCapacity(new_capacity);
-    new (size_) T(std::move(x));
+    // The new element is constructed first as the arguments might refer to our
+    // elements
+    il::int_t new_shift;
+    T* new_data = allocateLarger(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::forward<Args>(args)...);
+    MoveTo(new_data, new_shift, new_capacity);
   } else {
     new (size_) T(std::forward<Args>(args)...);
   }
@@ -947,15 +960,24 @@ template <typename T>
 void Array<T>::IncreaseCapacity(il::int_t r) {
   IL_EXPECT_FAST(capacity() < r);
 
-  const il::int_t n = size();
-  T* new_data;
   il::int_t new_shift;
+  T* new_data = allocateLarger(r, il::io, new_shift);
+  MoveTo(new_data, new_shift, r);
+}
+
+template <typename T>
+T* Array<T>::allocateLarger(il::int_t r, il::io_t, il::int_t& shift) const {
   if (alignment_ == 0) {
-    new_data = il::allocateArray<T>(r);
-    new_shift = 0;
+    shift = 0;
+    return il::allocateArray<T>(r);
   } else {
-    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
+    return il::allocateArray<T>(r, align_r_, align_mod_, il::io, shift);
   }
+}
+
+template <typename T>
+void Array<T>::MoveTo(T* new_data, il::int_t new_shift, il::int_t r) {
+  const il::int_t n = size();
   if (data_) {
     if (il::isTrivial<T>::value) {
       memcpy(new_data, data_, n * sizeof(T));
-- 
2.43.0


From a349816a7a8ec1d1889c0c40b0f0ab535ccce187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 013/156] fix: the copy of an aligned Array2C uses the
 alignment of its source

---
 il/container/2d/Array2C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index d00efa3..9a27ed8 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -548,7 +548,7 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
     if (il::isTrivial<T>::value && A.align_mod_ != 0) {
       r0 = n0;
       const il::int_t nb_lanes = static_cast<il::int_t>(
-          static_cast<std::size_t>(alignment_) / alignof(T));
+          static_cast<std::size_t>(A.alignment_) / alignof(T));
       bool error = false;
       r1 = il::safeUpperRound(n1, nb_lanes, il::io, error);
       if (error) {
-- 
2.43.0


From daf6e0acb7273faca3561f7c44f8acac422f6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 014/156] fix: an aligned multi-dimensional array can be empty

---
 il/container/2d/Array2C.h | 3 ---
 il/container/2d/Array2D.h | 3 ---
 il/container/3d/Array3C.h | 3 ---
 il/container/3d/Array3D.h | 3 ---
 il/container/4d/Array4C.h | 3 ---
 il/container/4d/Array4D.h | 3 ---
 6 files changed, 18 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 9a27ed8..744e06e 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -1086,9 +1086,6 @@ bool Array2C<T>::invariance() const {
     ans = ans && (size_[1] == nullptr);
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
-    ans = ans && (align_mod_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (alignment_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index a7a9b78..6507395 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1367,9 +1367,6 @@ bool Array2D<T>::invariance() const {
     ans = ans && (size_[1] == nullptr);
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4545d0a..fa1a555 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1185,9 +1185,6 @@ bool Array3C<T>::invariance() const {
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index c7fddc9..06ac03c 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -1187,9 +1187,6 @@ bool Array3D<T>::invariance() const {
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 769beae..8bcc673 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -1007,9 +1007,6 @@ bool Array4C<T>::invariance() const {
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
     ans = ans && (capacity_[3] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 908cdaf..6586909 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -1007,9 +1007,6 @@ bool Array4D<T>::invariance() const {
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
     ans = ans && (capacity_[3] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
-- 
2.43.0


From 0df419cdd1a6d95151274f3806b724c1d6540313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 015/156] fix: copy assignment of Array4C of objects assigns to
 the right elements

---
 il/container/4d/Array4C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 8bcc673..3e55a6e 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -556,7 +556,7 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
               for (il::int_t i3 = 0; i3 < n3; ++i3) {
                 data_[((i0 * capacity(1) + i1) * capacity(2) + i2) *
                           capacity(3) +
-                      i0] = A(i0, i1, i2, i3);
+                      i3] = A(i0, i1, i2, i3);
               }
             }
           }
-- 
2.43.0


From 652230c2ffcb128eea9eb73e029d0e65cd9c688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 016/156] fix: copy assignment of multi-dimensional arrays
 constructs the elements beyond the old shape

---
 il/container/2d/Array2C.h | 7 ++++++-
 il/container/2d/Array2D.h | 7 ++++++-
 il/container/3d/Array3C.h | 7 ++++++-
 il/container/3d/Array3D.h | 7 ++++++-
 il/container/4d/Array4C.h | 9 ++++++---
 il/container/4d/Array4D.h | 9 ++++++---
 6 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 744e06e..7c47c47 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -707,7 +707,12 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
       } else {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            data_[i0 * capacity(1) + i1] = A(i0, i1);
+            T* const p = data_ + i0 * capacity(1) + i1;
+            if (i0 < size(0) && i1 < size(1)) {
+              *p = A(i0, i1);
+            } else {
+              new (p) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 6507395..a849531 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -755,7 +755,12 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
       } else {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i0 = 0; i0 < n0; ++i0) {
-            data_[i1 * capacity(0) + i0] = A(i0, i1);
+            T* const p = data_ + i1 * capacity(0) + i0;
+            if (i0 < size(0) && i1 < size(1)) {
+              *p = A(i0, i1);
+            } else {
+              new (p) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index fa1a555..18aa337 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -811,7 +811,12 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
-              data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
+              T* const p = data_ + (i0 * capacity(1) + i1) * capacity(2) + i2;
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                *p = A(i0, i1, i2);
+              } else {
+                new (p) T(A(i0, i1, i2));
+              }
             }
           }
         }
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index 06ac03c..e678aa5 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -811,7 +811,12 @@ Array3D<T>& Array3D<T>::operator=(const Array3D<T>& A) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i0 = 0; i0 < n0; ++i0) {
-              data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
+              T* const p = data_ + (i2 * capacity(1) + i1) * capacity(0) + i0;
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                *p = A(i0, i1, i2);
+              } else {
+                new (p) T(A(i0, i1, i2));
+              }
             }
           }
         }
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 3e55a6e..693bfa0 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -554,9 +554,12 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
               for (il::int_t i3 = 0; i3 < n3; ++i3) {
-                data_[((i0 * capacity(1) + i1) * capacity(2) + i2) *
-                          capacity(3) +
-                      i3] = A(i0, i1, i2, i3);
+                T* const p = data_ + ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) + i3;
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) && i3 < size(3)) {
+                  *p = A(i0, i1, i2, i3);
+                } else {
+                  new (p) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 6586909..ac446e8 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -554,9 +554,12 @@ Array4D<T>& Array4D<T>::operator=(const Array4D<T>& A) {
           for (il::int_t i2 = 0; i2 < n2; ++i2) {
             for (il::int_t i1 = 0; i1 < n1; ++i1) {
               for (il::int_t i0 = 0; i0 < n0; ++i0) {
-                data_[((i3 * capacity(2) + i2) * capacity(1) + i1) *
-                          capacity(0) +
-                      i0] = A(i0, i1, i2, i3);
+                T* const p = data_ + ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) + i0;
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) && i3 < size(3)) {
+                  *p = A(i0, i1, i2, i3);
+                } else {
+                  new (p) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
-- 
2.43.0


From c258f014ffda49be5a5510cd8a2b5f03298a9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 017/156] fix: aligned arrays constructed from a value get this
 value in release mode

---
 il/container/3d/Array3C.h | 2 --
 il/container/3d/Array3D.h | 2 --
 2 files changed, 4 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 18aa337..848bd26 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -489,7 +489,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i0 = 0; i0 < n0; ++i0) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
@@ -497,7 +496,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index e678aa5..91f837e 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -485,7 +485,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i2 = 0; i2 < n2; ++i2) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
@@ -493,7 +492,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
-- 
2.43.0


From 04deffc16c1c075b7c21373fbb0b9b2467463989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 018/156] fix: Array3C::Resize initialises the right elements

---
 il/container/3d/Array3C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 848bd26..4261abf 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1038,7 +1038,7 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
   } else {
     if (il::isTrivial<T>::value) {
 #ifdef IL_DEFAULT_VALUE
-      for (il::int_t i0 = 0; i0 < n2; ++i0) {
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
                i2 < n2; ++i2) {
-- 
2.43.0


From 64478b6d45ce951dd82a98b53b3bc1b5f1611b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:39 +0000
Subject: [PATCH 019/156] fix: every element emplaced is constructed from the
 same arguments

---
 il/container/1d/Array.h   | 10 +++++-----
 il/container/2d/Array2D.h | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 6b16c60..f7b4a42 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -391,7 +391,7 @@ Array<T>::Array(il::int_t n, il::emplace_t, Args&&... args) {
   if (n > 0) {
     data_ = il::allocateArray<T>(n);
     for (il::int_t i = 0; i < n; ++i) {
-      new (data_ + i) T(std::forward<Args>(args)...);
+      new (data_ + i) T(args...);
     }
   } else {
     data_ = nullptr;
@@ -775,14 +775,14 @@ void Array<T>::Resize(il::int_t n, il::emplace_t, Args&&... args) {
   if (n <= capacity()) {
     if (il::isTrivial<T>::value) {
       for (il::int_t i = size(); i < n; ++i) {
-        data_[i] = T(std::forward<Args>(args)...);
+        data_[i] = T(args...);
       }
     } else {
       for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-        new (data_ + i) T(std::forward<Args>(args)...);
+        new (data_ + i) T(args...);
       }
     }
   } else {
@@ -790,11 +790,11 @@ void Array<T>::Resize(il::int_t n, il::emplace_t, Args&&... args) {
     IncreaseCapacity(n);
     if (il::isTrivial<T>::value) {
       for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = T(std::forward<Args>(args)...);
+        data_[i] = T(args...);
       }
     } else {
       for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T(std::forward<Args>(args)...);
+        new (data_ + i) T(args...);
       }
     }
   }
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index a849531..ec520da 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -428,7 +428,7 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, il::emplace_t, Args&&... args) {
     data_ = il::allocateArray<T>(r);
     for (il::int_t i1 = 0; i1 < n1; ++i1) {
       for (il::int_t i0 = 0; i0 < n0; ++i0) {
-        new (data_ + i1 * r0 + i0) T(std::forward<Args>(args)...);
+        new (data_ + i1 * r0 + i0) T(args...);
       }
     }
   } else {
@@ -1138,7 +1138,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new_data[i1 * r0 + i0] = T(std::forward<Args>(args)...);
+          new_data[i1 * r0 + i0] = T(args...);
         }
       }
     } else {
@@ -1161,7 +1161,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (new_data + i1 * r0 + i0) T{std::forward<Args>(args)...};
+          new (new_data + i1 * r0 + i0) T{args...};
         }
       }
     }
@@ -1173,7 +1173,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
     if (il::isTrivial<T>::value) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = (i1 < n1_old ? n0_old : 0); i0 < n0; ++i0) {
-          data_[i1 * capacity(0) + i0] = T(std::forward<Args>(args)...);
+          data_[i1 * capacity(0) + i0] = T(args...);
         }
       }
     } else {
@@ -1184,7 +1184,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (data_ + i1 * capacity(0) + i0) T{std::forward<Args>(args)...};
+          new (data_ + i1 * capacity(0) + i0) T{args...};
         }
       }
     }
-- 
2.43.0


From 90e4d4053f4b2d706e23dc13597b358cc9237687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:39 +0000
Subject: [PATCH 020/156] fix: Array2D::Resize accepts an element of the array
 itself

---
 il/container/2d/Array2D.h | 56 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index ec520da..7bb22e1 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1016,6 +1016,11 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
         new_data =
             il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
       }
+      for (il::int_t i1 = 0; i1 < n1; ++i1) {
+        for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
+          new_data[i1 * r0 + i0] = x;
+        }
+      }
       if (data_) {
         for (il::int_t i1 = 0; i1 < (n1 < n1_old ? n1 : n1_old); ++i1) {
           memcpy(new_data + i1 * r0, data_ + i1 * capacity(0),
@@ -1023,14 +1028,14 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
         }
         il::deallocate(data_ - shift_);
       }
+    } else {
+      new_data = il::allocateArray<T>(r);
+      new_shift = 0;
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new_data[i1 * r0 + i0] = x;
+          new (new_data + i1 * r0 + i0) T{x};
         }
       }
-    } else {
-      new_data = il::allocateArray<T>(r);
-      new_shift = 0;
       if (data_) {
         for (il::int_t i1 = n1_old - 1; i1 >= 0; --i1) {
           for (il::int_t i0 = n0_old - 1; i0 >= (i1 < n1 ? n0 : 0); --i0) {
@@ -1046,11 +1051,6 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
         }
         il::deallocate(data_);
       }
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (new_data + i1 * r0 + i0) T{x};
-        }
-      }
     }
     data_ = new_data;
     capacity_[0] = data_ + r0;
@@ -1064,16 +1064,16 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
         }
       }
     } else {
-      for (il::int_t i1 = n1_old - 1; i1 >= 0; --i1) {
-        for (il::int_t i0 = n0_old - 1; i0 >= (i1 < n1 ? n0 : 0); --i0) {
-          (data_ + i1 * capacity(0) + i0)->~T();
-        }
-      }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
           new (data_ + i1 * capacity(0) + i0) T{x};
         }
       }
+      for (il::int_t i1 = n1_old - 1; i1 >= 0; --i1) {
+        for (il::int_t i0 = n0_old - 1; i0 >= (i1 < n1 ? n0 : 0); --i0) {
+          (data_ + i1 * capacity(0) + i0)->~T();
+        }
+      }
     }
   }
   size_[0] = data_ + n0;
@@ -1129,6 +1129,11 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
         new_data =
             il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
       }
+      for (il::int_t i1 = 0; i1 < n1; ++i1) {
+        for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
+          new_data[i1 * r0 + i0] = T(args...);
+        }
+      }
       if (data_) {
         for (il::int_t i1 = 0; i1 < (n1 < n1_old ? n1 : n1_old); ++i1) {
           memcpy(new_data + i1 * r0, data_ + i1 * capacity(0),
@@ -1136,14 +1141,14 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
         }
         il::deallocate(data_ - shift_);
       }
+    } else {
+      new_data = il::allocateArray<T>(r);
+      new_shift = 0;
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new_data[i1 * r0 + i0] = T(args...);
+          new (new_data + i1 * r0 + i0) T{args...};
         }
       }
-    } else {
-      new_data = il::allocateArray<T>(r);
-      new_shift = 0;
       if (data_) {
         for (il::int_t i1 = n1_old - 1; i1 >= 0; --i1) {
           for (il::int_t i0 = n0_old - 1; i0 >= (i1 < n1 ? n0 : 0); --i0) {
@@ -1159,11 +1164,6 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
         }
         il::deallocate(data_);
       }
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (new_data + i1 * r0 + i0) T{args...};
-        }
-      }
     }
     data_ = new_data;
     capacity_[0] = data_ + r0;
@@ -1177,16 +1177,16 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
         }
       }
     } else {
-      for (il::int_t i1 = n1_old - 1; i1 >= 0; --i1) {
-        for (il::int_t i0 = n0_old - 1; i0 >= (i1 < n1 ? n0 : 0); --i0) {
-          (data_ + i1 * capacity(0) + i0)->~T();
-        }
-      }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
           new (data_ + i1 * capacity(0) + i0) T{args...};
         }
       }
+      for (il::int_t i1 = n1_old - 1; i1 >= 0; --i1) {
+        for (il::int_t i0 = n0_old - 1; i0 >= (i1 < n1 ? n0 : 0); --i0) {
+          (data_ + i1 * capacity(0) + i0)->~T();
+        }
+      }
     }
   }
   size_[0] = data_ + n0;
-- 
2.43.0


From 3eb25b7085aa24e82b2ebd8be0b36bea73db52b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 021/156] fix: Array3C copy assignment destroys the elements
 beyond the new shape

---
 il/container/3d/Array3C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4261abf..cd3571b 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -821,7 +821,7 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i2 = size(2) - 1;
-                 i2 >= (i0 < n0 && i1 < n1 ? n0 : 0); --i2) {
+                 i2 >= (i0 < n0 && i1 < n1 ? n2 : 0); --i2) {
               (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)->~T();
             }
           }
-- 
2.43.0


From b0948b62ee0b2fb6431d6cc67ebd816c9279a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 022/156] fix: Array2CEdit::Edit selects the block requested

---
 il/container/2d/Array2CView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index ac65e44..f58d2b6 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -235,8 +235,8 @@ Array2CEdit<T> Array2CEdit<T>::Edit(il::Range r0, il::Range r1) {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(r1.end) <=
                    static_cast<std::size_t>(this->size(1)));
 
-  const il::int_t my_stride = this->stride(1);
-  return il::Array2CEdit<T>{Data() + r0.begin + r1.begin * my_stride,
+  const il::int_t my_stride = this->stride(0);
+  return il::Array2CEdit<T>{Data() + r0.begin * my_stride + r1.begin,
                             r0.end - r0.begin,
                             r1.end - r1.begin,
                             my_stride,
-- 
2.43.0


From e2a96626156fff9fd494a70b558a92d05276b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 023/156] fix: the view of a part of a column of Array2D takes
 the stride into account

---
 il/container/2d/Array2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 7bb22e1..6b808a5 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1275,7 +1275,7 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
-  return il::ArrayView<T>{data() + i1 * size(0) + range0.begin,
+  return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From 45cf080e0a6c8a38801d74df62f86c44501f479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 024/156] fix: the view of a part of a column of Array2D is
 checked

---
 il/container/2d/Array2D.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 6b808a5..f72eae8 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1275,6 +1275,13 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
   return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
@@ -1326,7 +1333,14 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
-  return il::ArrayEdit<T>{data() + i1 * stride(1) + range0.begin,
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
+  return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From 03c37e380317d1184d08c6db796c6d11a22c5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 025/156] fix: an empty two-dimensional array has a view

---
 il/container/2d/Array2CView.h | 4 ++--
 il/container/2d/Array2DView.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index f58d2b6..c0cec91 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -143,7 +143,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
diff --git a/il/container/2d/Array2DView.h b/il/container/2d/Array2DView.h
index 6c83a34..2a0c95f 100644
--- a/il/container/2d/Array2DView.h
+++ b/il/container/2d/Array2DView.h
@@ -143,7 +143,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
-- 
2.43.0


From f6a5a1a2ba5ef41289c1cf8820fa7ea1e9ae3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 026/156] fix: an empty Array keeps the alignment it was
 created with

---
 il/container/1d/Array.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index f7b4a42..5a190b0 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -350,9 +350,9 @@ Array<T>::Array(il::int_t n, il::align_t, il::int_t alignment,
 #endif
   } else {
     data_ = nullptr;
-    alignment_ = 0;
-    align_r_ = 0;
-    align_mod_ = 0;
+    alignment_ = static_cast<short>(alignment);
+    align_r_ = static_cast<short>(align_r);
+    align_mod_ = static_cast<short>(align_mod);
     shift_ = 0;
   }
   size_ = data_ + n;
@@ -435,9 +435,9 @@ Array<T>::Array(il::int_t n, const T& x, il::align_t, il::int_t alignment,
     }
   } else {
     data_ = nullptr;
-    alignment_ = 0;
-    align_r_ = 0;
-    align_mod_ = 0;
+    alignment_ = static_cast<short>(alignment);
+    align_r_ = static_cast<short>(align_r);
+    align_mod_ = static_cast<short>(align_mod);
     shift_ = 0;
   }
   size_ = data_ + n;
@@ -1015,9 +1015,10 @@ bool Array<T>::invariance() const {
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (align_r_ < align_mod_);
-    ans = ans && (reinterpret_cast<std::size_t>(data_) %
-                      static_cast<std::size_t>(align_mod_) ==
-                  static_cast<std::size_t>(align_r_));
+    ans = ans && (data_ == nullptr ||
+                  reinterpret_cast<std::size_t>(data_) %
+                          static_cast<std::size_t>(align_mod_) ==
+                      static_cast<std::size_t>(align_r_));
   }
   return ans;
 }
-- 
2.43.0


From 398a5d35e765461be32eacaa0a3d935e92a209e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 027/156] fix: the lines of an aligned array created without
 elements are aligned

---
 il/container/2d/Array2C.h | 10 +++++-----
 il/container/2d/Array2D.h | 14 +++++++-------
 il/container/3d/Array3C.h | 10 +++++-----
 il/container/3d/Array3D.h | 10 +++++-----
 il/core/memory/allocate.h | 16 ++++++++++++++++
 5 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 7c47c47..4f02cf6 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -328,7 +328,7 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, il::align_t,
     r1 = 0;
   } else {
     r0 = (n0 == 0) ? 1 : n0;
-    r1 = (n1 == 0) ? 1 : n1;
+    r1 = il::alignedSize<T>((n1 == 0) ? 1 : n1, alignment);
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -438,7 +438,7 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, const T& x, il::align_t,
     r1 = 0;
   } else {
     r0 = (n0 == 0) ? 1 : n0;
-    r1 = (n1 == 0) ? 1 : n1;
+    r1 = il::alignedSize<T>((n1 == 0) ? 1 : n1, alignment);
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -563,7 +563,7 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
     r1 = 0;
   } else {
     r0 = (n0 == 0) ? 1 : n0;
-    r1 = (n1 == 0) ? 1 : n1;
+    r1 = il::alignedSize<T>((n1 == 0) ? 1 : n1, A.alignment_);
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -652,7 +652,7 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
         }
       } else {
         r0 = (n0 == 0) ? 1 : n0;
-        r1 = (n1 == 0) ? 1 : n1;
+        r1 = il::alignedSize<T>((n1 == 0) ? 1 : n1, alignment);
       }
       bool error = false;
       const il::int_t r = il::safeProduct(r0, r1, il::io, error);
@@ -845,7 +845,7 @@ void Array2C<T>::Resize(il::int_t n0, il::int_t n1) {
       r1 = 0;
     } else {
       r0 = (n0 == 0) ? 1 : n0;
-      r1 = (n1 == 0) ? 1 : n1;
+      r1 = il::alignedSize<T>((n1 == 0) ? 1 : n1, alignment_);
     }
     bool error = false;
     const il::int_t r = il::safeProduct(r0, r1, il::io, error);
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index f72eae8..1b4c57f 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -342,7 +342,7 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, il::align_t,
     r0 = 0;
     r1 = 0;
   } else {
-    r0 = (n0 == 0) ? 1 : n0;
+    r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, alignment);
     r1 = (n1 == 0) ? 1 : n1;
   }
   bool error = false;
@@ -485,7 +485,7 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, const T& x, il::align_t,
     r0 = 0;
     r1 = 0;
   } else {
-    r0 = (n0 == 0) ? 1 : n0;
+    r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, alignment);
     r1 = (n1 == 0) ? 1 : n1;
   }
   bool error = false;
@@ -610,7 +610,7 @@ Array2D<T>::Array2D(const Array2D<T>& A) {
     r0 = 0;
     r1 = 0;
   } else {
-    r0 = (n0 == 0) ? 1 : n0;
+    r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, A.alignment_);
     r1 = (n1 == 0) ? 1 : n1;
   }
   bool error = false;
@@ -699,7 +699,7 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
           r1 = n1;
         }
       } else {
-        r0 = (n0 == 0) ? 1 : n0;
+        r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, alignment);
         r1 = (n1 == 0) ? 1 : n1;
       }
       bool error = false;
@@ -883,7 +883,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1) {
       r0 = 0;
       r1 = 0;
     } else {
-      r0 = (n0 == 0) ? 1 : n0;
+      r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, alignment_);
       r1 = (n1 == 0) ? 1 : n1;
     }
     bool error = false;
@@ -998,7 +998,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       r0 = 0;
       r1 = 0;
     } else {
-      r0 = (n0 == 0) ? 1 : n0;
+      r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, alignment_);
       r1 = (n1 == 0) ? 1 : n1;
     }
     bool error = false;
@@ -1111,7 +1111,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, il::emplace_t,
       r0 = 0;
       r1 = 0;
     } else {
-      r0 = (n0 == 0) ? 1 : n0;
+      r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, alignment_);
       r1 = (n1 == 0) ? 1 : n1;
     }
     bool error = false;
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index cd3571b..85d5b50 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -354,7 +354,7 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, il::align_t,
   } else {
     r0 = (n0 == 0) ? 1 : n0;
     r1 = (n1 == 0) ? 1 : n1;
-    r2 = (n2 == 0) ? 1 : n2;
+    r2 = il::alignedSize<T>((n2 == 0) ? 1 : n2, alignment);
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, r2, il::io, error);
@@ -478,7 +478,7 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
   } else {
     r0 = (n0 == 0) ? 1 : n0;
     r1 = (n1 == 0) ? 1 : n1;
-    r2 = (n2 == 0) ? 1 : n2;
+    r2 = il::alignedSize<T>((n2 == 0) ? 1 : n2, alignment);
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, r2, il::io, error);
@@ -637,7 +637,7 @@ Array3C<T>::Array3C(const Array3C<T>& A) {
   } else {
     r0 = (n0 == 0) ? 1 : n0;
     r1 = (n1 == 0) ? 1 : n1;
-    r2 = (n2 == 0) ? 1 : n2;
+    r2 = il::alignedSize<T>((n2 == 0) ? 1 : n2, A.alignment_);
   }
   bool error = false;
   const il::int_t r = il::safeProduct(r0, r1, r2, il::io, error);
@@ -741,7 +741,7 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
       } else {
         r0 = (n0 == 0) ? 1 : n0;
         r1 = (n1 == 0) ? 1 : n1;
-        r2 = (n2 == 0) ? 1 : n2;
+        r2 = il::alignedSize<T>((n2 == 0) ? 1 : n2, alignment);
       }
       bool error = false;
       const il::int_t r = il::safeProduct(r0, r1, r2, il::io, error);
@@ -960,7 +960,7 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
     } else {
       r0 = (n0 == 0) ? 1 : n0;
       r1 = (n1 == 0) ? 1 : n1;
-      r2 = (n2 == 0) ? 1 : n2;
+      r2 = il::alignedSize<T>((n2 == 0) ? 1 : n2, alignment_);
     }
     bool error = false;
     const il::int_t r = il::safeProduct(r0, r1, r2, il::io, error);
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index 91f837e..ea9a8b6 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -346,7 +346,7 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, il::align_t,
     r1 = 0;
     r2 = 0;
   } else {
-    r0 = (n0 == 0) ? 1 : n0;
+    r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, alignment);
     r1 = (n1 == 0) ? 1 : n1;
     r2 = (n2 == 0) ? 1 : n2;
   }
@@ -472,7 +472,7 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     r1 = 0;
     r2 = 0;
   } else {
-    r0 = (n0 == 0) ? 1 : n0;
+    r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, alignment);
     r1 = (n1 == 0) ? 1 : n1;
     r2 = (n2 == 0) ? 1 : n2;
   }
@@ -633,7 +633,7 @@ Array3D<T>::Array3D(const Array3D<T>& A) {
     r1 = 0;
     r2 = 0;
   } else {
-    r0 = (n0 == 0) ? 1 : n0;
+    r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, A.alignment_);
     r1 = (n1 == 0) ? 1 : n1;
     r2 = (n2 == 0) ? 1 : n2;
   }
@@ -739,7 +739,7 @@ Array3D<T>& Array3D<T>::operator=(const Array3D<T>& A) {
           r2 = n2;
         }
       } else {
-        r0 = (n0 == 0) ? 1 : n0;
+        r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, alignment);
         r1 = (n1 == 0) ? 1 : n1;
         r2 = (n2 == 0) ? 1 : n2;
       }
@@ -960,7 +960,7 @@ void Array3D<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
         r2 = n2;
       }
     } else {
-      r0 = (n0 == 0) ? 1 : n0;
+      r0 = il::alignedSize<T>((n0 == 0) ? 1 : n0, alignment_);
       r1 = (n1 == 0) ? 1 : n1;
       r2 = (n2 == 0) ? 1 : n2;
     }
diff --git a/il/core/memory/allocate.h b/il/core/memory/allocate.h
index a83da2f..2a872b5 100644
--- a/il/core/memory/allocate.h
+++ b/il/core/memory/allocate.h
@@ -95,6 +95,22 @@ T* allocateArray(il::int_t n, il::int_t align_r, il::int_t align_mod, il::io_t,
   return aligned_p;
 }
 
+// Smallest size not lower than n such that consecutive lines of that size
+// start at addresses which are equal modulo the alignment
+template <typename T>
+il::int_t alignedSize(il::int_t n, il::int_t alignment) {
+  if (!il::isTrivial<T>::value || alignment == 0) {
+    return n;
+  }
+  bool error = false;
+  const il::int_t ans = il::safeUpperRound(
+      n, alignment / static_cast<il::int_t>(alignof(T)), il::io, error);
+  if (error) {
+    il::abort();
+  }
+  return ans;
+}
+
 inline void deallocate(void* p) {
 //  std::cout << "Deallocated: " << p << std::endl;
 //
-- 
2.43.0


From b83913fea71c8686cbf4380468890656f475ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 028/156] fix: keys of a Map are still found after it has been
 rehashed

---
 il/container/hash/Map.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index c96b366..accd710 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1073,14 +1073,23 @@ template <typename K, typename V, typename F>
 void Map<K, V, F>::Rehash() {
   if (nb_tombstones_ > 0) {
     const il::int_t m = nbBuckets();
+    const std::size_t mask = static_cast<std::size_t>(m) - 1;
     KeyValue<K, V>* bucket = il::allocateArray<KeyValue<K, V>>(m);
     for (il::int_t i = 0; i < m; ++i) {
       F::constructEmpty(il::io, reinterpret_cast<K*>(bucket + i));
     }
     for (il::int_t i = 0; i < m; ++i) {
       if (!(F::isEmpty(bucket_[i].key) || F::isTombstone(bucket_[i].key))) {
-        new (&((bucket + i)->key)) K(std::move(bucket_[i].key));
-        new (&((bucket + i)->value)) V(std::move(bucket_[i].value));
+        // Without the tombstones, the place of the key might be different
+        std::size_t j = F::hash(bucket_[i].key, p_);
+        std::size_t delta_j = 1;
+        while (!F::isEmpty(bucket[j].key)) {
+          j += delta_j;
+          j &= mask;
+          ++delta_j;
+        }
+        new (&((bucket + j)->key)) K(std::move(bucket_[i].key));
+        new (&((bucket + j)->value)) V(std::move(bucket_[i].value));
         ((bucket_ + i)->value).~V();
         ((bucket_ + i)->key).~K();
       }
-- 
2.43.0


From 5fd1d1551707c7f1d067afe7f3c1fd17bc38bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 029/156] fix: Map::erase does not use a key it has destroyed

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index accd710..6c9457f 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -799,10 +799,10 @@ void Map<K, V, F>::erase(il::spot_t i) {
 #endif
   IL_EXPECT_FAST(found(i));
 
-  (&((bucket_ + i.index)->key))->~K();
 #ifdef IL_DEBUG_CLASS
   hash_ -= F::hash((bucket_ + i.index)->key, p_);
 #endif
+  (&((bucket_ + i.index)->key))->~K();
   F::constructTombstone(il::io, reinterpret_cast<K*>(bucket_ + i.index));
   (&((bucket_ + i.index)->value))->~V();
   --nb_elements_;
-- 
2.43.0


From 3499af7ea92db45560f1e071c8ea38568266fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 030/156] fix: copies of empty maps and self-assignment of Map

---
 il/container/hash/Map.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 6c9457f..9c4c6d5 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -277,6 +277,8 @@ Map<K, V, F>::Map(const Map<K, V, F>& map) {
       hash_ += F::hash(map.key(i), p_);
 #endif
     }
+  } else {
+    bucket_ = nullptr;
   }
 }
 
@@ -306,19 +308,22 @@ Map<K, V, F>::Map(Map<K, V, F>&& map) {
 
 template <typename K, typename V, typename F>
 Map<K, V, F>& Map<K, V, F>::operator=(const Map<K, V, F>& map) {
+  if (this == &map) {
+    return *this;
+  }
   const int p = map.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
+        (&((bucket_ + i)->value))->~V();
+        (&((bucket_ + i)->key))->~K();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<KeyValue<K, V>>(m);
     for (il::int_t i = 0; i < m; ++i) {
-- 
2.43.0


From fe293f5f40b05700fa6f93568d98db4da99dcd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 031/156] fix: the move assignment of Map compiles

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 9c4c6d5..66ceb93 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -362,7 +362,7 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
           (&((bucket_ + i)->value))->~V();
           (&((bucket_ + i)->key))->~K();
         }
-- 
2.43.0


From 5273c7a4117e8b51a4b10404316390f3b1b2b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 032/156] fix: an empty Map can be iterated

---
 il/container/hash/Map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 66ceb93..01ea16d 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -990,7 +990,7 @@ void Map<K, V, F>::Clear() {
 
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotBegin() const {
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m &&
@@ -1008,7 +1008,7 @@ il::spot_t Map<K, V, F>::spotBegin() const {
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotEnd() const {
   il::spot_t s;
-  s.index = il::int_t{1} << p_;
+  s.index = nbBuckets();
 #ifdef IL_DEBUG_CLASS
   s.signature = hash_;
 #endif
@@ -1020,7 +1020,7 @@ il::spot_t Map<K, V, F>::next(il::spot_t i) const {
 #ifdef IL_DEBUG_CLASS
   IL_EXPECT_MEDIUM(i.signature == hash_);
 #endif
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From a4f0a60cd9123c61774c0e7e94643993440a72bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 033/156] fix: Map::Reserve keeps the elements of the map

---
 il/container/hash/Map.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 01ea16d..2457979 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -922,7 +922,10 @@ template <typename K, typename V, typename F>
 void Map<K, V, F>::Reserve(il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
 
-  ReserveWithP(pForSlots(n));
+  const int p = pForSlots(n);
+  if (p > p_) {
+    ReserveWithP(p);
+  }
 }
 
 template <typename K, typename V, typename F>
@@ -1059,7 +1062,7 @@ void Map<K, V, F>::ReserveWithP(int p) {
   nb_elements_ = 0;
   nb_tombstones_ = 0;
 
-  if (p_ >= 0) {
+  if (old_bucket_ != nullptr) {
     for (il::int_t i = 0; i < old_m; ++i) {
       if (!F::isEmpty(old_bucket_[i].key) &&
           !F::isTombstone(old_bucket_[i].key)) {
-- 
2.43.0


From 08a8b46ea271533fbc5a55ee71fcdde5eb84ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 034/156] fix: the keys of a Map can be given as C strings

---
 il/container/hash/Map.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 2457979..ca99647 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -465,7 +465,7 @@ template <il::int_t m>
 void Map<K, V, F>::SetCString(const char (&key)[m], const V& value) {
   il::spot_t i = searchCString(key);
   if (!found(i)) {
-    Set(key, value, il::io, i);
+    SetCString(key, value, il::io, i);
   } else {
     (bucket_ + i.index)->value.~V();
     new (&((bucket_ + i.index)->value)) V(value);
@@ -480,7 +480,7 @@ template <il::int_t m>
 void Map<K, V, F>::SetCString(const char (&key)[m], V&& value) {
   il::spot_t i = searchCString(key);
   if (!found(i)) {
-    Set(key, value, il::io, i);
+    SetCString(key, value, il::io, i);
   } else {
     (bucket_ + i.index)->value.~V();
     new (&((bucket_ + i.index)->value)) V(std::move(value));
@@ -534,9 +534,6 @@ il::spot_t Map<K, V, F>::search(const K& key) const {
 template <typename K, typename V, typename F>
 template <il::int_t m>
 il::spot_t Map<K, V, F>::searchCString(const char (&key)[m]) const {
-  IL_EXPECT_MEDIUM(!F::isEmpty(key));
-  IL_EXPECT_MEDIUM(!F::isTombstone(key));
-
   if (p_ == -1) {
     il::spot_t s{-1};
 #ifdef IL_DEBUG_CLASS
@@ -584,7 +581,7 @@ il::spot_t Map<K, V, F>::searchCString(const char* key, il::int_t n) const {
   }
 
   const std::size_t mask = (static_cast<std::size_t>(1) << p_) - 1;
-  std::size_t i = F::hash(key, n) & mask;
+  std::size_t i = F::hash(key, n, p_);
   std::size_t i_tombstone = -1;
   std::size_t delta_i = 1;
   while (true) {
@@ -876,7 +873,7 @@ const V& Map<K, V, F>::valueForKey(const K& key, const V& default_value) const {
 template <typename K, typename V, typename F>
 template <il::int_t m>
 const V& Map<K, V, F>::valueForCString(const char (&key)[m]) const {
-  const il::spot_t i = search(key);
+  const il::spot_t i = searchCString(key);
   if (found(i)) {
     return value(i);
   } else {
@@ -888,7 +885,7 @@ template <typename K, typename V, typename F>
 template <il::int_t m>
 const V& Map<K, V, F>::valueForCString(const char (&key)[m],
                                        const V& default_value) const {
-  const il::spot_t i = search(key);
+  const il::spot_t i = searchCString(key);
   if (found(i)) {
     return value(i);
   } else {
-- 
2.43.0


From f22da38937cb2872cc0c06fca479a4ee7f2a2835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 035/156] fix: Map::valueForKey does not return a reference to
 a temporary

---
 il/container/hash/Map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index ca99647..2abe122 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -106,10 +106,10 @@ class Map {
   const K& key(il::spot_t i) const;
   const V& value(il::spot_t i) const;
   V& Value(il::spot_t i);
-  const V& valueForKey(const K& key) const;
+  V valueForKey(const K& key) const;
   const V& valueForKey(const K& key, const V& default_value) const;
   template <il::int_t m>
-  const V& valueForCString(const char (&key)[m]) const;
+  V valueForCString(const char (&key)[m]) const;
   template <il::int_t m>
   const V& valueForCString(const char (&key)[m], const V& default_value) const;
 
@@ -851,7 +851,7 @@ V& Map<K, V, F>::Value(il::spot_t i) {
 }
 
 template <typename K, typename V, typename F>
-const V& Map<K, V, F>::valueForKey(const K& key) const {
+V Map<K, V, F>::valueForKey(const K& key) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
@@ -872,7 +872,7 @@ const V& Map<K, V, F>::valueForKey(const K& key, const V& default_value) const {
 
 template <typename K, typename V, typename F>
 template <il::int_t m>
-const V& Map<K, V, F>::valueForCString(const char (&key)[m]) const {
+V Map<K, V, F>::valueForCString(const char (&key)[m]) const {
   const il::spot_t i = searchCString(key);
   if (found(i)) {
     return value(i);
-- 
2.43.0


From efe8134e6caa9c13a19e2d01cc63e939ef88f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 036/156] fix: a tombstone which is reused is not counted
 anymore

---
 il/container/hash/Map.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 2abe122..d19a3b7 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -636,6 +636,9 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
     il::spot_t j = searchCString(key, n);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone((bucket_ + i_local)->key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -668,6 +671,9 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
     il::spot_t j = searchCString(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone((bucket_ + i_local)->key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -697,6 +703,9 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone((bucket_ + i_local)->key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -726,6 +735,9 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone((bucket_ + i_local)->key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -755,6 +767,9 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone((bucket_ + i_local)->key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -784,6 +799,9 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone((bucket_ + i_local)->key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
   new (&((bucket_ + i_local)->value)) V(std::move(value));
   ++nb_elements_;
-- 
2.43.0


From ce10b08d4ae9e0e2b6f8538bcfe3e3a83c0e0fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 037/156] fix: the value given to Map::Set can be in the map

---
 il/container/hash/Map.h | 68 ++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index d19a3b7..ffc4847 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -410,8 +410,7 @@ void Map<K, V, F>::Set(const K& key, const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    (bucket_ + i.index)->value = value;
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -424,8 +423,7 @@ void Map<K, V, F>::Set(const K& key, V&& value) {
   if (!found(i)) {
     Set(key, std::move(value), il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = std::move(value);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -438,8 +436,7 @@ void Map<K, V, F>::Set(K&& key, const V& value) {
   if (!found(i)) {
     Set(std::move(key), value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = std::move(value);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -452,8 +449,7 @@ void Map<K, V, F>::Set(K&& key, V&& value) {
   if (!found(i)) {
     Set(std::move(key), std::move(value), il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = std::move(value);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -467,8 +463,7 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value) {
   if (!found(i)) {
     SetCString(key, value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    (bucket_ + i.index)->value = value;
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -482,8 +477,7 @@ void Map<K, V, F>::SetCString(const char (&key)[m], V&& value) {
   if (!found(i)) {
     SetCString(key, value, il::io, i);
   } else {
-    (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    (bucket_ + i.index)->value = std::move(value);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -628,13 +622,17 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
   const il::int_t nb_buckets = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(nb_buckets)) {
+    // They might be in the map, and its buckets are about to move
+    K new_key(key, n);
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = searchCString(key, n);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone((bucket_ + i_local)->key)) {
     --nb_tombstones_;
@@ -663,13 +661,17 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
   const il::int_t nb_buckets = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(nb_buckets)) {
+    // They might be in the map, and its buckets are about to move
+    K new_key(key);
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = searchCString(key);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone((bucket_ + i_local)->key)) {
     --nb_tombstones_;
@@ -695,13 +697,17 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // They might be in the map, and its buckets are about to move
+    K new_key(key);
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone((bucket_ + i_local)->key)) {
     --nb_tombstones_;
@@ -727,19 +733,23 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // They might be in the map, and its buckets are about to move
+    K new_key(key);
+    V new_value(std::move(value));
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone((bucket_ + i_local)->key)) {
     --nb_tombstones_;
   }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
+  new (&((bucket_ + i_local)->value)) V(std::move(value));
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -759,13 +769,17 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // They might be in the map, and its buckets are about to move
+    K new_key(std::move(key));
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone((bucket_ + i_local)->key)) {
     --nb_tombstones_;
@@ -791,13 +805,17 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // They might be in the map, and its buckets are about to move
+    K new_key(std::move(key));
+    V new_value(std::move(value));
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
-    i_local = -(1 + j.index);
+    i = search(new_key);
+    Set(std::move(new_key), std::move(new_value), il::io, i);
+    return;
   }
   if (F::isTombstone((bucket_ + i_local)->key)) {
     --nb_tombstones_;
-- 
2.43.0


From 769a562d0afee343f761eb002142a6f375a2aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 038/156] fix: moves and self-assignments of String

---
 il/container/string/String.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 38fff8c..a52a5a3 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -362,7 +362,7 @@ inline String::String(const String& s) : String{s.type(), s.data(), s.size()} {}
 inline String::String(String&& s) {
   const il::int_t size = s.size();
   const il::StringType type = s.type();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
     std::memcpy(small_, s.asCString(), size + 1);
     setSmall(type, size);
   } else {
@@ -404,6 +404,9 @@ inline String& String::operator=(const char (&data)[m]) {
 }
 
 inline String& String::operator=(const String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   const il::StringType type = s.type();
   if (size <= max_small_size_) {
@@ -434,10 +437,10 @@ inline String& String::operator=(String&& s) {
   if (this != &s) {
     const il::int_t size = s.size();
     const il::StringType type = s.type();
-    if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
+    if (s.isSmall()) {
       std::memcpy(small_, s.data(), size + 1);
       setSmall(type, size);
     } else {
-- 
2.43.0


From b6851f0a5a3dd841babe91fd2d8bdba3a5dfc30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 039/156] fix: appending to a short String held on the heap

---
 il/container/string/String.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index a52a5a3..1baa2d2 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1060,10 +1060,7 @@ inline void String::Grow(il::unsafe_t, il::int_t n_to_copy, il::int_t n) {
   const bool old_is_small = isSmall();
   char* old_data = Data();
   const il::int_t old_capacity = capacity();
-  if (n <= max_small_size_) {
-    if (!old_is_small) {
-      std::memcpy(small_, old_data, n_to_copy);
-    }
+  if (old_is_small && n <= max_small_size_) {
     setSmall(il::StringType::Byte, n);
   } else if (n <= old_capacity) {
     setLarge(il::StringType::Byte, n, old_capacity);
-- 
2.43.0


From 4ad3e9d86698370c06226c9dbfd639454529d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 040/156] fix: String::Append(n, rune) makes room for the n
 runes

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 1baa2d2..e9a6cda 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -609,7 +609,7 @@ inline void String::Append(il::int_t n, int rune) {
       p[old_n + k] = static_cast<char>(rune);
     }
     p[old_n + n] = '\0';
-    SetInvariant(il::unsafe, t, old_n + 1);
+    SetInvariant(il::unsafe, t, old_n + n);
   } else if (urune < 0x00000800u) {
     Grow(il::unsafe, old_n, old_n + 2 * n);
     char* p = Data();
@@ -622,7 +622,7 @@ inline void String::Append(il::int_t n, int rune) {
     SetInvariant(il::unsafe, il::joinType(t, il::StringType::Utf8),
                  old_n + 2 * n);
   } else if (urune < 0x00010000u) {
-    Grow(il::unsafe, old_n, old_n + 3);
+    Grow(il::unsafe, old_n, old_n + 3 * n);
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 3 * k] = static_cast<char>((urune >> 12) | 0x000000E0u);
-- 
2.43.0


From 91825a025e605c5fe23c3602fd9d3bc8bb4b7fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 041/156] fix: String::Append of a part of the string itself

---
 il/container/string/String.h | 63 +++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index e9a6cda..d66a55f 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -681,53 +681,48 @@ inline void String::Append(il::StringType t0, const char* data, il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_AXIOM("data must point to an array of length at least n");
 
-  const il::int_t old_n = size();
-  const il::StringType t = joinType(type(), t0);
-  Grow(il::unsafe, old_n, old_n + n);
-  char* p = this->Data();
-  std::memcpy(p + old_n, data, n);
-  p[old_n + n] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n);
+  Append(il::StringView{t0, data, n});
 }
 
 inline void String::Append(const StringView& s0) {
   const il::int_t old_n = size();
   const il::int_t n0 = s0.size();
   const il::StringType t = joinType(type(), s0.type());
-  Grow(il::unsafe, old_n, old_n + n0);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  p[old_n + n0] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0);
+  if (n0 == 0) {
+    SetInvariant(il::unsafe, t, old_n);
+  } else if (old_n + n0 <= capacity()) {
+    char* p = Data();
+    std::memmove(p + old_n, s0.data(), n0);
+    p[old_n + n0] = '\0';
+    SetInvariant(il::unsafe, t, old_n + n0);
+  } else {
+    // s0 might be a part of this string: its buffer can't be released yet
+    il::String ans{il::unsafe, old_n + n0};
+    char* p = ans.Data();
+    std::memcpy(p, data(), old_n);
+    std::memcpy(p + old_n, s0.data(), n0);
+    p[old_n + n0] = '\0';
+    ans.SetInvariant(il::unsafe, t, old_n + n0);
+    *this = std::move(ans);
+  }
 }
 
 inline void String::Append(const StringView& s0, const StringView& s1) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = s0.size();
-  const il::int_t n1 = s1.size();
-  const il::StringType t = joinType(type(), s0.type(), s1.type());
-  Grow(il::unsafe, old_n, old_n + n0 + n1);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
-  p[old_n + n0 + n1] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0 + n1);
+  il::String s{};
+  s.Reserve(s0.size() + s1.size());
+  s.Append(s0);
+  s.Append(s1);
+  Append(s.view());
 }
 
 inline void String::Append(const StringView& s0, const StringView& s1,
                            const StringView& s2) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = s0.size();
-  const il::int_t n1 = s1.size();
-  const il::int_t n2 = s2.size();
-  const il::StringType t = joinType(type(), s0.type(), s1.type(), s2.type());
-  Grow(il::unsafe, old_n, old_n + n0 + n1 + n2);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
-  std::memcpy(p + old_n + n0 + n1, s2.data(), n2);
-  p[old_n + n0 + n1 + n2] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0 + n1 + n2);
+  il::String s{};
+  s.Reserve(s0.size() + s1.size() + s2.size());
+  s.Append(s0);
+  s.Append(s1);
+  s.Append(s2);
+  Append(s.view());
 }
 
 inline void String::Insert(il::int_t i, char c) {
-- 
2.43.0


From bfd966d30bbcd96f68d970b2998b9369f4079dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 042/156] fix: String::Insert

---
 il/container/string/String.h | 129 ++++++-----------------------------
 1 file changed, 22 insertions(+), 107 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index d66a55f..a9a480a 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -727,142 +727,57 @@ inline void String::Append(const StringView& s0, const StringView& s1,
 
 inline void String::Insert(il::int_t i, char c) {
   IL_EXPECT_MEDIUM(static_cast<unsigned char>(c) < 128);
-  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <=
-                   static_cast<std::size_t>(size()));
-  if (type() == il::StringType::Utf8) {
-    IL_EXPECT_MEDIUM(isRuneBoundary(i));
-  }
 
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
-  char* p = Data();
-  if (old_size + 1 <= old_capacity) {
-    for (il::int_t k = old_size; k >= i + 1; k--) {
-      p[k] = p[k - 1];
-    }
-    p[i] = c;
-    if (old_is_small) {
-      setSmall(type(), old_size + 1);
-    } else {
-      setLarge(type(), old_size + 1, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + 1);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    new_p[i] = c;
-    std::memcpy(new_p + i + 1, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + 1, r);
-  }
+  Insert(i, 1, c);
 }
 
 // inline void String::Insert(il::int_t i, int rune) {}
 
 inline void String::Insert(il::int_t i, il::int_t n, char c) {
+  IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
 
   const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
+  const il::StringType t = type();
+  Grow(il::unsafe, old_size, old_size + n);
   char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    for (il::int_t k = i; k < i + n; ++k) {
-      p[k] = c;
-    }
-    if (old_is_small) {
-      setSmall(type(), old_size + n);
-    } else {
-      setLarge(type(), old_size + n, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    for (il::int_t k = i; k < i + n; ++k) {
-      new_p[k] = c;
-    }
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + n, r);
+  std::memmove(p + i + n, p + i, old_size - i);
+  for (il::int_t k = i; k < i + n; ++k) {
+    p[k] = c;
   }
+  p[old_size + n] = '\0';
+  SetInvariant(il::unsafe, t, old_size + n);
 }
 
 // inline void String::Insert(il::int_t i, il::int_t n, int rune) {}
 
 template <il::int_t m>
 inline void String::Insert(il::int_t i, const char (&s)[m]) {
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
-                 static_cast<std::size_t>(size()));
-  if (type() == il::StringType::Utf8) {
-    IL_EXPECT_FAST(isRuneBoundary(i));
-  }
-
-  const il::int_t n = m - 1;
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
-  char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    std::memcpy(p + i, s, n);
-    if (old_is_small) {
-      setSmall(type(), old_size + n);
-    } else {
-      setLarge(type(), old_size + n, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + n, r);
-  }
+  Insert(i, il::StringType::Utf8, s, m - 1);
 }
 
 inline void String::Insert(il::int_t i, il::StringType t, const char* s,
                            il::int_t n) {
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
 
+  // s might be a part of this string
   const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
-  const il::StringType t_new = il::joinType(type(), t);
-  char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    std::memcpy(p + i, s, n);
-    if (old_is_small) {
-      setSmall(t_new, old_size + n);
-    } else {
-      setLarge(t_new, old_size + n, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(t_new, old_size + n, r);
-  }
+  il::String ans{};
+  ans.Reserve(old_size + n);
+  ans.Append(type(), data(), i);
+  ans.Append(t, s, n);
+  ans.Append(type(), data() + i, old_size - i);
+  *this = std::move(ans);
 }
 
 inline void String::Insert(il::int_t i, const StringView& s0) {
-- 
2.43.0


From 5d36fca94549a79f98f196656f62a691375bac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 043/156] fix: substring and subview of a String held on the
 heap

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index a9a480a..b357d01 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -833,7 +833,7 @@ inline il::String String::substring(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::String{type(), small_ + i0, i1 - i0};
+  return il::String{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
@@ -847,7 +847,7 @@ inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::StringView{type(), small_ + i0, i1 - i0};
+  return il::StringView{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::view() const {
-- 
2.43.0


From 2e67a94a0c30affecfb0964233430a4d7536bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 044/156] fix: String::endsWith(char) looks at the last
 character

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index b357d01..cf16205 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -908,7 +908,7 @@ inline bool String::endsWith(char c) const {
     return false;
   }
   const char* s = data();
-  if (*s == 'c') {
+  if (s[n - 1] == c) {
     return true;
   } else {
     return false;
-- 
2.43.0


From 2d76c50fb9257b0062d92e3351bd5abe0cf65bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 045/156] fix: String::isEqual and StringView::operator==
 compare the whole strings

---
 il/container/string/String.h | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index cf16205..b66ee11 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -70,6 +70,7 @@ StringType joinType(StringType s0, StringType s1, StringType s2, StringType s3,
 bool isRune(int rune);
 bool isAscii(const char* s, il::int_t n);
 bool isUtf8(const char* s, il::int_t n);
+il::int_t size(const char* data);
 
 class StringView;
 
@@ -920,20 +921,11 @@ inline const char* String::asCString() const {
 }
 
 inline bool String::isEqual(const char* s) const {
-  bool ans = true;
-  const char* p = data();
-  il::int_t i = 0;
-  while (ans && s[i] != '\0') {
-    if (p[i] != s[i]) {
-      ans = false;
-    }
-    ++i;
-  }
-  return ans;
+  return isEqual(s, il::size(s));
 }
 
 inline bool String::isEqual(const char* s, il::int_t n) const {
-  bool ans = true;
+  bool ans = (size() == n);
   const char* p = data();
   il::int_t i = 0;
   while (ans && i < n) {
@@ -1335,9 +1327,9 @@ inline StringView StringView::subview(il::int_t i0, il::int_t i1) const {
 //}
 
 inline bool StringView::operator==(const char* string) const {
-  bool match = true;
+  bool match = (size() == il::size(string));
   il::int_t k = 0;
-  while (match && k < size() && string[k] != '\0') {
+  while (match && k < size()) {
     if (data_[k] != string[k]) {
       match = false;
     }
-- 
2.43.0


From 36ae227d009ed16f7aea84990ad34d10ab92b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 046/156] fix: the order of strings with zero bytes

---
 il/container/string/String.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index b66ee11..4a83b48 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1438,14 +1438,19 @@ inline il::String join(const il::StringView& s0, const il::StringView& s1,
   return ans;
 }
 
+inline bool isLess(const char* s0, il::int_t n0, const char* s1,
+                   il::int_t n1) {
+  const int compare =
+      std::memcmp(s0, s1, static_cast<std::size_t>(il::min(n0, n1)));
+  return compare < 0 || (compare == 0 && n0 < n1);
+}
+
 inline bool operator<(const il::String& s0, const il::String& s1) {
-  const int compare = std::strcmp(s0.data(), s1.data());
-  return compare < 0;
+  return il::isLess(s0.data(), s0.size(), s1.data(), s1.size());
 }
 
 inline bool operator<(const char* s0, const il::String& s1) {
-  const int compare = std::strcmp(s0, s1.data());
-  return compare < 0;
+  return il::isLess(s0, il::size(s0), s1.data(), s1.size());
 }
 
 inline bool operator==(const il::String& s0, const il::String& s1) {
-- 
2.43.0


From 73a2fd5de77a2aca793a71f6c70ba69de14fef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 047/156] fix: printing a StringView stops at its end

---
 il/container/string/String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 4a83b48..6f65902 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -25,6 +25,7 @@
 #include <utility>
 
 #include <iostream>
+#include <string>
 
 #include <il/core.h>
 #include <il/core/memory/allocate.h>
@@ -1509,11 +1510,11 @@ inline il::String toString(const char* s) {
 }
 
 inline std::ostream& operator<<(std::ostream& os, const String& s) {
-  return os << s.data();
+  return os << std::string(s.data(), static_cast<std::size_t>(s.size()));
 }
 
 inline std::ostream& operator<<(std::ostream& os, const StringView& s) {
-  return os << s.data();
+  return os << std::string(s.data(), static_cast<std::size_t>(s.size()));
 }
 
 }  // namespace il
-- 
2.43.0


From ca3170e46dda164e4d5a792899bcc4928e05f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 048/156] fix: the functions of StringView which were declared
 but not defined

---
 il/container/string/String.h | 59 ++++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 6f65902..15d6d9d 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1276,6 +1276,65 @@ inline const char& StringView::back(il::int_t i) const {
   return size_[-(1 + i)];
 }
 
+inline bool StringView::has(il::int_t i, const char* data) const {
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <=
+                   static_cast<std::size_t>(size()));
+
+  il::int_t k = 0;
+  while (data[k] != '\0') {
+    if (i + k >= size() || data_[i + k] != data[k]) {
+      return false;
+    }
+    ++k;
+  }
+  return true;
+}
+
+inline bool StringView::has(il::int_t i, char c) const {
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <=
+                   static_cast<std::size_t>(size()));
+
+  return i < size() && data_[i] == c;
+}
+
+inline bool StringView::startsWith(const char* data) const {
+  return has(0, data);
+}
+
+inline bool StringView::startsWith(char c) const { return has(0, c); }
+
+inline bool StringView::endsWith(const char* data) const {
+  const il::int_t n = il::size(data);
+  return n <= size() && has(size() - n, data);
+}
+
+inline bool StringView::endsWith(char c) const {
+  return size() > 0 && data_[size() - 1] == c;
+}
+
+inline bool StringView::endsWithNewLine() const { return endsWith('\n'); }
+
+inline bool StringView::endsWithDigit() const {
+  IL_EXPECT_MEDIUM(size() > 0);
+
+  return data_[size() - 1] >= '0' && data_[size() - 1] <= '9';
+}
+
+inline il::int_t StringView::nextNewLine(il::int_t i) const {
+  while (i < size() && !hasNewLine(i)) {
+    ++i;
+  }
+  return i < size() ? i : -1;
+}
+
+inline void StringView::trimSuffix() {
+  il::int_t i = size();
+  while (i > 0 && (data_[i - 1] == ' ' || data_[i - 1] == '\t')) {
+    --i;
+  }
+  size_ = data_ + i;
+}
+
 inline bool StringView::startsWithNewLine() const {
   return (size() > 0 && data_[0] == '\n') ||
          (size() > 1 && data_[0] == '\r' && data_[1] == '\n');
-- 
2.43.0


From 57ce242dc6faf50005658887fe565fc861d9dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 049/156] fix: trail surrogates are not runes

---
 il/container/string/String.h      | 4 ++--
 il/container/string/UTF16String.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 15d6d9d..b64a3f0 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -236,10 +236,10 @@ class StringView {
 inline bool isRune(int rune) {
   const unsigned int code_point_max = 0x0010FFFFu;
   const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int trail_surrogate_max = 0x0000DFFFu;
   const unsigned int urune = static_cast<unsigned int>(rune);
   return urune <= code_point_max &&
-         (urune < lead_surrogate_min || urune > lead_surrogate_max);
+         (urune < lead_surrogate_min || urune > trail_surrogate_max);
 }
 
 inline bool isAscii(const char* s, il::int_t n) {
diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 89cf524..3d6a27a 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -427,10 +427,10 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 inline bool UTF16String::validRune(int cp) const {
   const unsigned int code_point_max = 0x0010FFFFu;
   const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int trail_surrogate_max = 0x0000DFFFu;
   const unsigned int ucp = static_cast<unsigned int>(cp);
   return ucp <= code_point_max &&
-         (ucp < lead_surrogate_min || ucp > lead_surrogate_max);
+         (ucp < lead_surrogate_min || ucp > trail_surrogate_max);
 }
 }  // namespace il
 
-- 
2.43.0


From fee2cc5d09e36960ea5d1bf61298f5fc3b568799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 050/156] fix: isUtf8

---
 il/container/string/String.h | 87 ++++++++++++++----------------------
 1 file changed, 34 insertions(+), 53 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index b64a3f0..ab7b648 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1084,61 +1084,42 @@ inline constexpr bool isAscii(const char* data) {
 //  return ans;
 //}
 
-inline constexpr bool auxIsUtf8(const char* s, int nbBytes, int pos,
-                                bool surrogate) {
-  return (pos == 0)
-             // If it starts with the null character, the string is valid
-             ? ((*s == 0x00)
-                    ? true
-                    // Otherwise, let's check if is starts with an ASCII
-                    // character
-                    : ((*s & 0x80) == 0
-                           // In this case, check the rest of the string
-                           ? auxIsUtf8(s + 1, 0, 0, false)
-                           // Otherwise, it might start with a 2-byte sequence
-                           : ((*s & 0xD0) == 0xB0
-                                  // In this case, check the rest of the string
-                                  ? auxIsUtf8(s + 1, 2, 1, false)
-                                  // Otherwise, it might start with a 3-byte
-                                  // sequence
-                                  : ((*s & 0xF0) == 0xD0
-                                         // In this case, check the rest of the
-                                         // string
-                                         ? auxIsUtf8(
-                                               s + 1, 3, 1,
-                                               (static_cast<unsigned char>(
-                                                    *s) == 0xED))
-                                         // Otherwise, it might start with a
-                                         // 4-byte sequence
-                                         : ((*s & 0xF8) == 0xF0
-                                                ? auxIsUtf8(s + 1, 4, 1, false)
-                                                : false)))))
-             // In the case where we are scanning the second byte of a multibyte
-             // sequence
-             : ((pos == 1)
-                    ? ((*s & 0xC0) == 0x80
-                           ? (nbBytes == 2 ? ((*s & 0xA0) != 0xA0)
-                                           : auxIsUtf8(s + 1, nbBytes, pos + 1,
-                                                       surrogate))
-                           : false)
-                    // In the case where we are scanning the third byte of a
-                    // multibyte sequence
-                    : ((pos == 2)
-                           ? ((*s & 0xC0) == 0x80
-                                  ? (nbBytes == 3
-                                         ? true
-                                         : auxIsUtf8(s + 1, nbBytes, pos + 1,
-                                                     surrogate))
-                                  : false)
-                           // In the case where we are scanning the
-                           // fourth byte of a multibyte sequence
-                           : ((pos == 3) ? ((*s & 0xC0) == 0x80) : false)));
-}
-
-inline constexpr bool isUtf8(const char* s) {
-  return auxIsUtf8(s, 0, 0, false);
+inline bool isUtf8(const char* s, il::int_t n) {
+  IL_EXPECT_FAST(n >= 0);
+
+  il::int_t i = 0;
+  while (i < n) {
+    const unsigned char c = static_cast<unsigned char>(s[i]);
+    // Number of continuation bytes
+    const il::int_t m = c < 0x80_uchar
+                            ? 0
+                            : (c < 0xE0_uchar ? 1 : (c < 0xF0_uchar ? 2 : 3));
+    if (m > 0 && (c < 0xC2_uchar || c > 0xF4_uchar)) {
+      return false;
+    }
+    if (i + m >= n) {
+      return false;
+    }
+    for (il::int_t k = 1; k <= m; ++k) {
+      const unsigned char d = static_cast<unsigned char>(s[i + k]);
+      if ((d & 0xC0_uchar) != 0x80_uchar) {
+        return false;
+      }
+      // Overlong sequences, surrogates and values which are too large
+      if (k == 1 && ((c == 0xE0_uchar && d < 0xA0_uchar) ||
+                     (c == 0xED_uchar && d > 0x9F_uchar) ||
+                     (c == 0xF0_uchar && d < 0x90_uchar) ||
+                     (c == 0xF4_uchar && d > 0x8F_uchar))) {
+        return false;
+      }
+    }
+    i += m + 1;
+  }
+  return true;
 }
 
+inline bool isUtf8(const char* s) { return il::isUtf8(s, il::size(s)); }
+
 ////////////////////////////////////////////////////////////////////////////////
 // StringView
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From bfb880e7422fefd2c56048e86588aa5cacf3dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 051/156] fix: toUtf16 and toUtf8 do not append a zero to the
 text

---
 il/container/string/unicode.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/il/container/string/unicode.h b/il/container/string/unicode.h
index 34e6728..37f390c 100644
--- a/il/container/string/unicode.h
+++ b/il/container/string/unicode.h
@@ -92,7 +92,6 @@ inline il::UTF16String toUtf16(const il::String& string) {
   for (il::int_t i = 0; i < view.size(); i = view.nextRune(i)) {
     ans.Append(view.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
@@ -102,7 +101,6 @@ inline il::String toUtf8(const il::UTF16String& string) {
   for (il::int_t i = 0; i < string.size(); i = string.nextRune(i)) {
     ans.Append(string.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
-- 
2.43.0


From 8d06f88d05163dc7ff60ec55633b7d0b16b6b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 052/156] fix: moves and self-assignments of UTF16String

---
 il/container/string/UTF16String.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 3d6a27a..6a2ff82 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -133,7 +133,7 @@ inline UTF16String::UTF16String(const UTF16String& s) {
 
 inline UTF16String::UTF16String(UTF16String&& s) {
   const il::int_t size = s.size();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
     std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
     SetSmallSize(size);
   } else {
@@ -146,6 +146,9 @@ inline UTF16String::UTF16String(UTF16String&& s) {
 }
 
 inline UTF16String& UTF16String::operator=(const UTF16String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
@@ -175,10 +178,10 @@ inline UTF16String& UTF16String::operator=(const UTF16String& s) {
 inline UTF16String& UTF16String::operator=(UTF16String&& s) {
   if (this != &s) {
     const il::int_t size = s.size();
-    if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
+    if (s.isSmall()) {
       std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
       SetSmallSize(size);
     } else {
-- 
2.43.0


From daf903cf2cbb4d0c9315b575b17edd36768e8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 053/156] fix: UTF16String::Append of many characters or of the
 string itself

---
 il/container/string/UTF16String.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 6a2ff82..92140c4 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -21,6 +21,8 @@
 
 // <cstring> is needed for memcpy
 #include <cstring>
+// <utility> is needed for std::move
+#include <utility>
 
 #include <il/core.h>
 #include <il/core/memory/allocate.h>
@@ -275,7 +277,7 @@ inline void UTF16String::Append(il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_size = size();
-  const il::int_t new_size = old_size + 1;
+  const il::int_t new_size = old_size + n;
   const il::int_t new_capacity = il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
@@ -324,8 +326,9 @@ inline void UTF16String::Append(il::int_t n, int cp) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(validRune(cp));
 
-  IL_UNUSED(n);
-  IL_UNUSED(cp);
+  for (il::int_t i = 0; i < n; ++i) {
+    Append(cp);
+  }
 }
 
 inline const unsigned short* UTF16String::data() const {
@@ -413,8 +416,15 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
   IL_EXPECT_AXIOM("data must point to an array of length at least n");
 
   const il::int_t old_size = size();
-  const il::int_t new_capacity = il::max(old_size + n, 2 * old_size);
-  Reserve(new_capacity);
+  if (old_size + n > capacity()) {
+    // data might be a part of this string: its buffer can't be released yet
+    il::UTF16String s{};
+    s.Reserve(il::max(old_size + n, 2 * old_size));
+    s.Append(asWString(), old_size);
+    s.Append(data, n);
+    *this = std::move(s);
+    return;
+  }
 
   if (isSmall()) {
     std::memcpy(data_ + old_size, data, 2 * static_cast<std::size_t>(n));
-- 
2.43.0


From c92836badc4c27648ba06d18737a1b9251b05b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:26 +0000
Subject: [PATCH 054/156] fix: toString of large integers

---
 il/container/string/algorithmString.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/algorithmString.h b/il/container/string/algorithmString.h
index 20a852e..c6810d5 100644
--- a/il/container/string/algorithmString.h
+++ b/il/container/string/algorithmString.h
@@ -26,8 +26,9 @@
 namespace il {
 
 inline il::String toString(il::int_t n) {
-  il::String ans{il::unsafe, 11};
-  const il::int_t m = std::snprintf(ans.Data(), 11 + 1, "%td", n);
+  // A sign and 19 digits
+  il::String ans{il::unsafe, 20};
+  const il::int_t m = std::snprintf(ans.Data(), 20 + 1, "%td", n);
   ans.SetInvariant(il::unsafe, il::StringType::Ascii, m);
 
   IL_ENSURE(m > 0);
-- 
2.43.0


From f84ad9ec378de8f822f3b55eff27135b4442713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:04 +0000
Subject: [PATCH 055/156] fix: Map::SetCString(key, n) compiles

---
 il/container/hash/Map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index ffc4847..94bc4b6 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -623,7 +623,7 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(nb_buckets)) {
     // They might be in the map, and its buckets are about to move
-    K new_key(key, n);
+    K new_key(il::StringType::Byte, key, n);
     V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
@@ -637,7 +637,7 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
   if (F::isTombstone((bucket_ + i_local)->key)) {
     --nb_tombstones_;
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
+  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(il::StringType::Byte, key, n);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
 
-- 
2.43.0


From 42972457d19f0a5d998b6da8410e828151f18668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 056/156] fix: the debug signature of MapArray

---
 il/container/hash/MapArray.h | 36 +++++-------------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index df4a60c..d62eff1 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -29,10 +29,6 @@ class MapArray {
  private:
   il::Array<il::KeyValue<K, V>> array_;
   il::Map<K, il::int_t, F> map_;
-#ifdef IL_DEBUG_CLASS
-  std::size_t hash_;
-#endif
-
  public:
   MapArray();
   MapArray(il::int_t n);
@@ -61,18 +57,11 @@ class MapArray {
 };
 
 template <typename K, typename V, typename F>
-MapArray<K, V, F>::MapArray() : array_{}, map_{} {
-#ifdef IL_DEBUG_CLASS
-  hash_ = 0;
-#endif
-}
+MapArray<K, V, F>::MapArray() : array_{}, map_{} {}
 
 template <typename K, typename V, typename F>
 MapArray<K, V, F>::MapArray(il::int_t n) : array_{}, map_{n} {
   array_.Reserve(n);
-#ifdef IL_DEBUG_CLASS
-  hash_ = 0;
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -88,9 +77,6 @@ MapArray<K, V, F>::MapArray(il::value_t,
       map_.Set((list.begin() + i)->key, i);
     }
   }
-#ifdef IL_DEBUG_CLASS
-  hash_ = static_cast<std::size_t>(n);
-#endif
 };
 
 template <typename K, typename V, typename F>
@@ -98,9 +84,6 @@ void MapArray<K, V, F>::Set(const K& key, const V& value) {
   const il::int_t i = array_.size();
   array_.Append(il::emplace, key, value);
   map_.Set(key, i);
-#ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -108,9 +91,6 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
   const il::int_t i = array_.size();
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(key, i);
-#ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -118,9 +98,6 @@ void MapArray<K, V, F>::Set(K&& key, V&& value) {
   const il::int_t i = array_.size();
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(std::move(key), i);
-#ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-#endif
 }
 
 template <typename K, typename V, typename F>
@@ -132,8 +109,7 @@ void MapArray<K, V, F>::Set(const K& key, const V& value, il::io_t,
 
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-  i.signature = hash_;
+  i.signature = map_.hash();
 #endif
 }
 
@@ -144,8 +120,7 @@ void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
   map_.Set(key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-  i.signature = hash_;
+  i.signature = map_.hash();
 #endif
 }
 
@@ -156,8 +131,7 @@ void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   map_.Set(std::move(key), j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
-  i.signature = hash_;
+  i.signature = map_.hash();
 #endif
 }
 
@@ -229,7 +203,7 @@ il::spot_t MapArray<K, V, F>::spotBegin() const {
   il::spot_t s;
   s.index = 0;
 #ifdef IL_DEBUG_CLASS
-  s.signature = hash_;
+  s.signature = map_.hash();
 #endif
   return s;
 }
-- 
2.43.0


From 57fe09c3579d7f83756d4d0a45286cc41f9895b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 057/156] fix: a key which is set again in a MapArray keeps one
 entry

---
 il/container/hash/MapArray.h | 52 +++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index d62eff1..972f602 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -72,32 +72,49 @@ MapArray<K, V, F>::MapArray(il::value_t,
     array_.Reserve(n);
     map_.Reserve(n);
     for (il::int_t i = 0; i < n; ++i) {
-      array_.Append(il::emplace, (list.begin() + i)->key,
-                    (list.begin() + i)->value);
-      map_.Set((list.begin() + i)->key, i);
+      Set((list.begin() + i)->key, (list.begin() + i)->value);
     }
   }
 };
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, const V& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, value);
-  map_.Set(key, i);
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = value;
+  } else {
+    Set(key, value, il::io, i);
+  }
 }
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, V&& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(key, i);
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = std::move(value);
+  } else {
+    Set(key, std::move(value), il::io, i);
+  }
+}
+
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value) {
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = value;
+  } else {
+    Set(std::move(key), value, il::io, i);
+  }
 }
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(std::move(key), i);
+  il::spot_t i = search(key);
+  if (found(i)) {
+    array_[i.index].value = std::move(value);
+  } else {
+    Set(std::move(key), std::move(value), il::io, i);
+  }
 }
 
 template <typename K, typename V, typename F>
@@ -124,6 +141,17 @@ void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
 #endif
 }
 
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
+  const il::int_t j = array_.size();
+  array_.Append(il::emplace, key, value);
+  map_.Set(std::move(key), j, il::io, i);
+  i.index = j;
+#ifdef IL_DEBUG_CLASS
+  i.signature = map_.hash();
+#endif
+}
+
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t j = array_.size();
-- 
2.43.0


From 32eb59d28a4755f369f09554d6c0806f4756b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 058/156] fix: MapArray::searchCString

---
 il/container/hash/MapArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index 972f602..1a833bb 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -187,7 +187,7 @@ il::spot_t MapArray<K, V, F>::search(const K& key) const {
 template <typename K, typename V, typename F>
 template <il::int_t m>
 il::spot_t MapArray<K, V, F>::searchCString(const char (&key)[m]) const {
-  const il::spot_t i = map_.search(key);
+  const il::spot_t i = map_.searchCString(key);
   il::spot_t s;
   s.index = map_.found(i) ? map_.value(i) : i.index;
 #ifdef IL_DEBUG_CLASS
-- 
2.43.0


From abf3efb2e8aadb615358726462d3b71bbaaa7e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 059/156] fix: the key given to MapArray::Set can be in the
 MapArray

---
 il/container/hash/MapArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index 1a833bb..c56dd35 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -122,7 +122,7 @@ void MapArray<K, V, F>::Set(const K& key, const V& value, il::io_t,
                             il::spot_t& i) {
   const il::int_t j = array_.size();
   array_.Append(il::emplace, key, value);
-  map_.Set(key, j, il::io, i);
+  map_.Set(array_[j].key, j, il::io, i);
 
   i.index = j;
 #ifdef IL_DEBUG_CLASS
@@ -134,7 +134,7 @@ template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t j = array_.size();
   array_.Append(il::emplace, key, std::move(value));
-  map_.Set(key, j, il::io, i);
+  map_.Set(array_[j].key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
   i.signature = map_.hash();
-- 
2.43.0


From fd887156b78aa6695c0d842f84898816965473d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 060/156] fix: Set compiles

---
 il/container/hash/Set.h | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index ed81b46..e2c1166 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -20,7 +20,8 @@
 #define IL_SET_H
 
 #include <il/container/hash/HashFunction.h>
-#include <il/container/hash/Spot.h>
+#include <il/core.h>
+#include <il/core/memory/allocate.h>
 
 namespace il {
 
@@ -41,7 +42,7 @@ class Set {
   ~Set();
 
   il::spot_t search(const T& x) const;
-  void Add(const T& x, il::io_t, il::spot_t i);
+  void Add(const T& x, il::io_t, il::spot_t& i);
   void Add(const T& x);
   bool found(il::spot_t i) const;
   bool contains(const T& x) const;
@@ -103,7 +104,7 @@ Set<T, F>& Set<T, F>::operator=(const Set<T, F>& set) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
           (bucket_ + i)->~T();
         }
       }
@@ -137,9 +138,8 @@ Set<T, F>& Set<T, F>::operator=(Set<T, F>&& set) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
+        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
+          (bucket_ + i)->~T();
         }
       }
       il::deallocate(bucket_);
@@ -261,7 +261,7 @@ const T& Set<T, F>::element(il::spot_t i) const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotBegin() const {
-  const il::int_t m = static_cast<il::int_t>(static_cast<std::size_t>(1) << p_);
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m && (F::isEmpty(bucket_[i]) || F::isTombstone(bucket_[i]))) {
@@ -272,17 +272,12 @@ il::spot_t Set<T, F>::spotBegin() const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotEnd() const {
-#ifdef IL_DEBUG_CLASS
-  return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_),
-                    0};
-#else
-  return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_)};
-#endif
+  return il::spot_t{nbBuckets()};
 }
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::next(il::spot_t i) const {
-  const il::int_t m = static_cast<il::int_t>(static_cast<std::size_t>(1) << p_);
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From 98b695c0c6299e0425ffd1ddd60c0513598ea94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 061/156] fix: copies of empty sets and self-assignment of Set

---
 il/container/hash/Set.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index e2c1166..dcb6d59 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -81,6 +81,8 @@ Set<T, F>::Set(const Set<T, F>& set) {
     for (il::spot_t i = set.spotBegin(); i != set.spotEnd(); i = set.next(i)) {
       Add(set.element(i));
     }
+  } else {
+    bucket_ = nullptr;
   }
 }
 
@@ -98,18 +100,21 @@ Set<T, F>::Set(Set<T, F>&& set) {
 
 template <typename T, typename F>
 Set<T, F>& Set<T, F>::operator=(const Set<T, F>& set) {
+  if (this == &set) {
+    return *this;
+  }
   const int p = set.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
-          (bucket_ + i)->~T();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
+        (bucket_ + i)->~T();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<T>(m);
     for (il::int_t i = 0; i < m; ++i) {
-- 
2.43.0


From 8e2097b664b1d2df17c031f03347c69855bd4148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 062/156] fix: Set::Clear removes the elements

---
 il/container/hash/Set.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index dcb6d59..e980b21 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -254,9 +254,11 @@ void Set<T, F>::Clear() {
       if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
         (bucket_ + i)->~T();
       }
+      F::constructEmpty(il::io, bucket_ + i);
     }
   }
   nb_elements_ = 0;
+  nb_tombstones_ = 0;
 }
 
 template <typename T, typename F>
-- 
2.43.0


From ad12690e9a69b065a1991583ca59899400f854a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 063/156] fix: a Deque is empty once its last element has been
 popped from the back

---
 il/container/deque/Deque.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index e609004..a3d4390 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -216,7 +216,10 @@ template <typename T>
 void Deque<T>::PopBack() {
   IL_EXPECT_MEDIUM(size() > 0);
 
-  if (back_ > 0) {
+  if (size() == 1) {
+    front_ = -1;
+    back_ = -1;
+  } else if (back_ > 0) {
     --back_;
   } else {
     back_ = data_.size() - 1;
-- 
2.43.0


From 4a08dc02865221d542e3949f9ddf1102d03be50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 064/156] fix: PushBack on a full Deque does not overwrite its
 front

---
 il/container/deque/Deque.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index a3d4390..8a7f697 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -133,7 +133,8 @@ void Deque<T>::PushBack(const T& x) {
     data_[0] = x;
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ < front_ ? back_ + 1 < front_
+                            : back_ + 1 < data_.size()) {
     ++back_;
     data_[back_] = x;
   } else if (back_ + 1 == data_.size()) {
@@ -155,7 +156,8 @@ void Deque<T>::PushBack(il::emplace_t, Args&&... args) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ < front_ ? back_ + 1 < front_
+                            : back_ + 1 < data_.size()) {
     ++back_;
     data_[back_] = T(std::forward<Args>(args)...);
   } else if (back_ + 1 == data_.size()) {
-- 
2.43.0


From eb20d7f23be6abf111fd7d8101413e2dbdffaf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 065/156] fix: pushes on a full Deque are checked

---
 il/container/deque/Deque.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index 8a7f697..8b6ead0 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -94,6 +94,8 @@ void Deque<T>::Reserve(il::int_t n) {
 
 template <typename T>
 void Deque<T>::PushFront(const T& x) {
+  IL_EXPECT_FAST(size() < capacity());
+
   if (back_ == -1 && front_ == -1) {
     data_[0] = x;
     front_ = 0;
@@ -112,6 +114,8 @@ void Deque<T>::PushFront(const T& x) {
 template <typename T>
 template <typename... Args>
 void Deque<T>::PushFront(il::emplace_t, Args&&... args) {
+  IL_EXPECT_FAST(size() < capacity());
+
   if (back_ == -1 && front_ == -1) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
@@ -129,6 +133,8 @@ void Deque<T>::PushFront(il::emplace_t, Args&&... args) {
 
 template <typename T>
 void Deque<T>::PushBack(const T& x) {
+  IL_EXPECT_FAST(size() < capacity());
+
   if (back_ == -1 && front_ == -1) {
     data_[0] = x;
     front_ = 0;
@@ -152,6 +158,8 @@ void Deque<T>::PushBack(const T& x) {
 template <typename T>
 template <typename... Args>
 void Deque<T>::PushBack(il::emplace_t, Args&&... args) {
+  IL_EXPECT_FAST(size() < capacity());
+
   if (back_ == -1 && front_ == -1) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
-- 
2.43.0


From 22c1a3ac96dcd2120c9c49c12b190d0cc24fa50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 066/156] fix: copy and release 2D arrays held in a Dynamic

---
 il/container/dynamic/Dynamic.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 00db025..3523cc3 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -632,6 +632,15 @@ inline void Dynamic::CopyData(il::Type type, void *p) {
           new il::Array<il::String>{
               *reinterpret_cast<il::Array<il::String> *>(p)};
       break;
+    case il::Type::Array2DOfUInt8:
+      *reinterpret_cast<il::Array2D<unsigned char> **>(&data_) =
+          new il::Array2D<unsigned char>{
+              *reinterpret_cast<il::Array2D<unsigned char> *>(p)};
+      break;
+    case il::Type::Array2DOfDouble:
+      *reinterpret_cast<il::Array2D<double> **>(&data_) =
+          new il::Array2D<double>{*reinterpret_cast<il::Array2D<double> *>(p)};
+      break;
     default:
       IL_UNREACHABLE;
   }
@@ -689,6 +698,9 @@ inline void Dynamic::ReleaseMemory() {
     case il::Type::ArrayOfString:
       delete reinterpret_cast<il::Array<il::String> *>(data_);
       break;
+    case il::Type::Array2DOfUInt8:
+      delete reinterpret_cast<il::Array2D<unsigned char> *>(data_);
+      break;
     case il::Type::Array2DOfDouble:
       delete reinterpret_cast<il::Array2D<double> *>(data_);
       break;
-- 
2.43.0


From c896c0e077fb195b09fc664f5ad0599f7e374aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 067/156] fix: report the type of an array of unsigned int held
 in a Dynamic

---
 il/container/dynamic/Dynamic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 3523cc3..47ea588 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -268,13 +268,13 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
 }
 
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
 
 inline Dynamic::Dynamic(il::Array<unsigned int> &&value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
-- 
2.43.0


From 5897e32879765558dfa7f04c7e2d41c85c36cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 068/156] fix: define the constructor of a Dynamic from an
 array of short

---
 il/container/dynamic/Dynamic.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 47ea588..6e078d4 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -267,6 +267,12 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
   *reinterpret_cast<il::Array<short> **>(&data_) = new il::Array<short>{value};
 }
 
+inline Dynamic::Dynamic(il::Array<short> &&value) {
+  type_ = il::Type::ArrayOfInt16;
+  *reinterpret_cast<il::Array<short> **>(&data_) =
+      new il::Array<short>{std::move(value)};
+}
+
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
   type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
-- 
2.43.0


From 623ec74afc6b166af8f22046886733ca3a26a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 069/156] fix: give a type id to the small integers

---
 il/container/dynamic/Type.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/il/container/dynamic/Type.h b/il/container/dynamic/Type.h
index 33c6bee..6a54b92 100644
--- a/il/container/dynamic/Type.h
+++ b/il/container/dynamic/Type.h
@@ -222,6 +222,26 @@ inline il::Type typeId<bool>() {
   return il::Type::Bool;
 }
 
+template <>
+inline il::Type typeId<unsigned char>() {
+  return il::Type::UInt8;
+}
+
+template <>
+inline il::Type typeId<signed char>() {
+  return il::Type::Int8;
+}
+
+template <>
+inline il::Type typeId<unsigned short>() {
+  return il::Type::UInt16;
+}
+
+template <>
+inline il::Type typeId<short>() {
+  return il::Type::Int16;
+}
+
 template <>
 inline il::Type typeId<int>() {
   return il::Type::Int;
-- 
2.43.0


From c403238e8c66655348baf3571bd05b003b092e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 070/156] fix: assign to a Dynamic itself or something it holds

---
 il/container/dynamic/Dynamic.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 6e078d4..0e800ab 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -463,20 +463,24 @@ inline il::Dynamic &Dynamic::operator=(double value) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::String &value) {
+  // The value might belong to what this object holds
+  il::String *p = new il::String{value};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{value};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
 inline il::Dynamic &Dynamic::operator=(il::String &&value) {
+  // The value might belong to what this object holds
+  il::String *p = new il::String{std::move(value)};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{std::move(value)};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
@@ -496,25 +500,21 @@ inline Dynamic::Dynamic(il::Dynamic &&other) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::Dynamic &other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
-  }
-  type_ = other.type_;
-  if (isStackAllocated()) {
-    data_ = other.data_;
-  } else {
-    CopyData(type_, reinterpret_cast<void *>(other.data_));
-  }
+  // The other object might be this one, or belong to what this one holds
+  *this = il::Dynamic{other};
   return *this;
 }
 
 inline il::Dynamic &Dynamic::operator=(il::Dynamic &&other) {
+  // The other object might be this one, or belong to what this one holds
+  const il::Type type = other.type_;
+  const std::uint64_t data = other.data_;
+  other.type_ = il::Type::Void;
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
-  type_ = other.type_;
-  data_ = other.data_;
-  other.type_ = il::Type::Void;
+  type_ = type;
+  data_ = data;
   return *this;
 }
 
-- 
2.43.0


From 85617eaa3c702e167885975b8c1a05f6468838ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:57 +0000
Subject: [PATCH 071/156] fix: assign a string literal to a Dynamic

---
 il/container/dynamic/Dynamic.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 0e800ab..196954f 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -95,6 +95,8 @@ class Dynamic {
 #endif
   il::Dynamic &operator=(float value);
   il::Dynamic &operator=(double value);
+  template <il::int_t m>
+  il::Dynamic &operator=(const char (&value)[m]);
   il::Dynamic &operator=(const il::String &value);
   il::Dynamic &operator=(il::String &&value);
   il::Dynamic &operator=(const il::Dynamic &other);
@@ -462,6 +464,12 @@ inline il::Dynamic &Dynamic::operator=(double value) {
   return *this;
 }
 
+template <il::int_t m>
+il::Dynamic &Dynamic::operator=(const char (&value)[m]) {
+  *this = il::Dynamic{value};
+  return *this;
+}
+
 inline il::Dynamic &Dynamic::operator=(const il::String &value) {
   // The value might belong to what this object holds
   il::String *p = new il::String{value};
-- 
2.43.0


From 1aaec3d5eed752019150fc31301ee736cf99e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 072/156] fix: release the memory of an Info

---
 il/container/info/Info.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 37ff6ab..1523517 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -47,6 +47,7 @@ class Info {
   Info(Info&& other);
   Info& operator=(const Info& other);
   Info& operator=(Info&& other);
+  ~Info();
 
   bool isEmpty() const;
   void clear();
@@ -160,6 +161,9 @@ inline Info& Info::operator=(Info&& other) {
       std::memcpy(small_, other.data(), size);
       SetSmallSize(size);
     } else {
+      if (!isSmall()) {
+        delete[] large_.data;
+      }
       large_ = other.large_;
       other.SetSmallSize(0);
     }
@@ -167,6 +171,12 @@ inline Info& Info::operator=(Info&& other) {
   return *this;
 }
 
+inline Info::~Info() {
+  if (!isSmall()) {
+    delete[] large_.data;
+  }
+}
+
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-- 
2.43.0


From 7346b8b3ff8b973a323e1adecce3eeb07b611a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 073/156] fix: make an int set in an Info an integer

---
 il/container/info/Info.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 1523517..8898724 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -178,6 +178,9 @@ inline Info::~Info() {
 }
 
 inline void Info::Set(const char* key, int value) {
+#ifdef IL_64_BIT
+  Set(key, static_cast<il::int_t>(value));
+#else
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
   il::int_t i = size();
@@ -193,10 +196,11 @@ inline void Info::Set(const char* key, int value) {
   }
   i += key_length + 1;
 
-  p[i] = 3;
+  p[i] = 0;
   ++i;
 
   Set(value, p + i);
+#endif
 }
 
 #ifdef IL_64_BIT
-- 
2.43.0


From 1c741972070b9ba67437a867debafdefd8701432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 074/156] fix: search for the whole key in an Info

---
 il/container/info/Info.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 8898724..687453b 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -284,10 +284,11 @@ inline il::int_t Info::search(const char* key) const {
     const int step = get_int(i);
 
     j = 0;
-    while (key[j] != '\0' && p[i + sizeof(int) + j] == key[j]) {
+    while (key[j] != '\0' &&
+           p[i + sizeof(int) + j] == static_cast<unsigned char>(key[j])) {
       ++j;
     }
-    if (p[i + sizeof(int) + j] == '\0') {
+    if (key[j] == '\0' && p[i + sizeof(int) + j] == '\0') {
       found = true;
     } else {
       i += step;
-- 
2.43.0


From 17e5f797dc557b07b679ad89d12c1f6e933d34ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 075/156] fix: replace the value of a key set again in an Info

---
 il/container/info/Info.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 687453b..b3455b7 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -84,6 +84,7 @@ class Info {
   const unsigned char* data() const;
   unsigned char* data();
   void Resize(il::int_t n);
+  void Remove(const char* key);
 
   bool isSmall() const;
   void SetSmallSize(il::int_t n);
@@ -127,6 +128,9 @@ inline Info::Info(Info&& other) {
 }
 
 inline Info& Info::operator=(const Info& other) {
+  if (this == &other) {
+    return *this;
+  }
   const il::int_t size = other.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
@@ -183,6 +187,7 @@ inline void Info::Set(const char* key, int value) {
 #else
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
+  Remove(key);
   il::int_t i = size();
   Resize(i + n);
 
@@ -208,6 +213,7 @@ inline void Info::Set(const char* key, il::int_t value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n =
       key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
+  Remove(key);
   il::int_t i = size();
   Resize(i + n);
 
@@ -231,6 +237,7 @@ inline void Info::Set(const char* key, il::int_t value) {
 inline void Info::Set(const char* key, double value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + static_cast<int>(sizeof(int) + sizeof(double));
+  Remove(key);
   il::int_t i = size();
   Resize(i + n);
 
@@ -254,6 +261,7 @@ inline void Info::Set(const char* key, const char* value) {
   const int key_length = static_cast<int>(strlen(key));
   const int value_length = static_cast<int>(strlen(value));
   const int n = key_length + value_length + 3 + static_cast<int>(sizeof(int));
+  Remove(key);
   il::int_t i = size();
   Resize(i + n);
 
@@ -492,6 +500,18 @@ inline void Info::Resize(il::int_t n) {
   }
 }
 
+inline void Info::Remove(const char* key) {
+  const il::int_t i = search(key);
+  if (found(i)) {
+    const il::int_t begin = i - static_cast<il::int_t>(std::strlen(key)) - 1 -
+                            static_cast<il::int_t>(sizeof(int));
+    const il::int_t end = begin + get_int(begin);
+    unsigned char* p = data();
+    std::memmove(p + begin, p + end, static_cast<std::size_t>(size() - end));
+    Resize(size() - (end - begin));
+  }
+}
+
 inline void Info::clear() {
   if (!isSmall()) {
     delete[] large_.data;
-- 
2.43.0


From 0db90ece71af4a4d345d3b57d12b2181ae82d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 076/156] fix: define the booleans of an Info

---
 il/container/info/Info.h | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index b3455b7..7ae685a 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -181,6 +181,29 @@ inline Info::~Info() {
   }
 }
 
+inline void Info::Set(const char* key, bool value) {
+  const int key_length = static_cast<int>(strlen(key));
+  const int n = key_length + 3 + static_cast<int>(sizeof(int));
+  Remove(key);
+  il::int_t i = size();
+  Resize(i + n);
+
+  unsigned char* p = data();
+
+  Set(n, p + i);
+  i += sizeof(int);
+
+  for (il::int_t j = 0; j < key_length + 1; ++j) {
+    p[i + j] = key[j];
+  }
+  i += key_length + 1;
+
+  p[i] = 3;
+  ++i;
+
+  p[i] = value ? 1 : 0;
+}
+
 inline void Info::Set(const char* key, int value) {
 #ifdef IL_64_BIT
   Set(key, static_cast<il::int_t>(value));
@@ -308,12 +331,20 @@ inline il::int_t Info::search(const char* key) const {
 
 inline bool Info::found(il::int_t i) const { return i >= 0; }
 
+inline bool Info::isBool(il::int_t i) const { return data()[i] == 3; }
+
 inline bool Info::isInteger(il::int_t i) const { return data()[i] == 0; }
 
 inline bool Info::isDouble(il::int_t i) const { return data()[i] == 1; }
 
 inline bool Info::isString(il::int_t i) const { return data()[i] == 2; }
 
+inline bool Info::toBool(il::int_t i) const {
+  IL_EXPECT_FAST(isBool(i));
+
+  return data()[i + 1] != 0;
+}
+
 inline il::int_t Info::toInteger(il::int_t i) const {
   IL_EXPECT_FAST(isInteger(i));
 
@@ -350,6 +381,13 @@ inline const char* Info::asCString(il::int_t i) const {
   return reinterpret_cast<const char*>(data()) + i + 1;
 }
 
+inline bool Info::toBool(const char* key) const {
+  const il::int_t i = search(key);
+  IL_ENSURE(found(i));
+
+  return toBool(i);
+}
+
 inline il::int_t Info::toInteger(const char* key) const {
   const il::int_t i = search(key);
   IL_ENSURE(found(i));
-- 
2.43.0


From 7285c7821e5874ec3b2215eb80fd82042e51c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 077/156] fix: define Status::domain()

---
 il/container/info/Status.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/container/info/Status.h b/il/container/info/Status.h
index 5a63664..8a54ebf 100644
--- a/il/container/info/Status.h
+++ b/il/container/info/Status.h
@@ -255,6 +255,12 @@ inline il::Error Status::error() const {
 
   return error_;
 }
+
+inline il::ErrorDomain Status::domain() const {
+  IL_EXPECT_MEDIUM(!to_check_);
+
+  return il::domain(error_);
+}
 }  // namespace il
 
 #endif  // IL_STATUS_H
-- 
2.43.0


From fbe4a8dc462fb6c0bb28a8303c552b4046b78678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 078/156] fix: copy all the elements when assigning triangular
 matrices

---
 il/container/2d/LowerArray2D.h | 15 +++++++++++----
 il/container/2d/UpperArray2D.h | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index 1f5a114..dde20d8 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -158,7 +158,8 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -176,12 +177,18 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        if (n > 0) {
+          memcpy(data_, A.data_, nb_elements * sizeof(T));
+        }
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T{A.data_[k]};
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index 912d669..4692d37 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -158,7 +158,8 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -176,12 +177,18 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        if (n > 0) {
+          memcpy(data_, A.data_, nb_elements * sizeof(T));
+        }
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T{A.data_[k]};
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
-- 
2.43.0


From 6679ca1e4c71f30c432be8f365992ba07c6a2d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 079/156] fix: build a sparse matrix with no row

---
 il/container/2d/SparseMatrixCSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 62243ac..c7b80db 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -144,7 +144,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   for (Index l = 0; l < nb_entries; ++l) {
     ++nb_entries_per_row[position[l][0]];
   }
-  const Index max_entries_per_row = il::max(nb_entries_per_row);
+  const Index max_entries_per_row = (n > 0) ? il::max(nb_entries_per_row) : 0;
 
   // Suppose that we have the matrix entered with the following entries:
   // (0, 0) - (2, 2) - (1, 2) - (1, 1) - (2, 2)
-- 
2.43.0


From fd0f63dce972c5f172f75c8acd9e02a1064702b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 080/156] fix: make SparseMatrixBlas compile

---
 il/linearAlgebra/sparse/blas/SparseMatrixBlas.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 963702e..10304d4 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -44,10 +44,10 @@ SparseMatrixBlas<Index, T>::SparseMatrixBlas(il::io_t,
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  T *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  T *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_d_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
@@ -98,10 +98,10 @@ SparseMatrixBlas<Index, float>::SparseMatrixBlas(
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  float *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  float *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_s_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
-- 
2.43.0


From 6f2a1446698f4ae6ac1d5872991bace87b65fb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 081/156] fix: make sparseDot.h compile and stay within the
 matrices

---
 il/linearAlgebra/sparse/blas/sparseDot.h | 28 ++++++++++++------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseDot.h b/il/linearAlgebra/sparse/blas/sparseDot.h
index e14e4bd..df4ad2d 100644
--- a/il/linearAlgebra/sparse/blas/sparseDot.h
+++ b/il/linearAlgebra/sparse/blas/sparseDot.h
@@ -50,51 +50,51 @@ inline il::SparseMatrixCSR<int, double> dot(
   il::Array<int> row{m + 1};
   MKL_INT request = 1;
 
-  int *A_row_data = A.rowData();
-  int *A_column_data = A.columnData();
+  int *A_row_data = A.RowData();
+  int *A_column_data = A.ColumnData();
   for (int i = 0; i <= A.size(0); ++i) {
     ++A_row_data[i];
   }
-  for (int i = 0; i <= A.nbNonZeros(); ++i) {
+  for (int i = 0; i < A.nbNonZeros(); ++i) {
     ++A_column_data[i];
   }
-  int *B_row_data = B.rowData();
-  int *B_column_data = B.columnData();
+  int *B_row_data = B.RowData();
+  int *B_column_data = B.ColumnData();
   if (&A != &B) {
     for (int i = 0; i <= B.size(0); ++i) {
       ++B_row_data[i];
     }
-    for (int i = 0; i <= B.nbNonZeros(); ++i) {
+    for (int i = 0; i < B.nbNonZeros(); ++i) {
       ++B_column_data[i];
     }
   }
 
-  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.elementData(),
-                  A.columnData(), A.rowData(), B.elementData(), B.columnData(),
-                  B.rowData(), element.data(), column.data(), row.data(),
+  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.ElementData(),
+                  A.ColumnData(), A.RowData(), B.ElementData(), B.ColumnData(),
+                  B.RowData(), element.Data(), column.Data(), row.Data(),
                   &nzmax, &info);
   IL_EXPECT_FAST(info == 0);
 
   element.Resize(row[m] - 1);
   column.Resize(row[m] - 1);
   request = 2;
-  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.elementData(),
-                  A.columnData(), A.rowData(), B.elementData(), B.columnData(),
-                  B.rowData(), element.data(), column.data(), row.data(),
+  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.ElementData(),
+                  A.ColumnData(), A.RowData(), B.ElementData(), B.ColumnData(),
+                  B.RowData(), element.Data(), column.Data(), row.Data(),
                   &nzmax, &info);
   IL_EXPECT_FAST(info == 0);
 
   for (int i = 0; i <= A.size(0); ++i) {
     --A_row_data[i];
   }
-  for (int i = 0; i <= A.nbNonZeros(); ++i) {
+  for (int i = 0; i < A.nbNonZeros(); ++i) {
     --A_column_data[i];
   }
   if (&A != &B) {
     for (int i = 0; i <= B.size(0); ++i) {
       --B_row_data[i];
     }
-    for (int i = 0; i <= B.nbNonZeros(); ++i) {
+    for (int i = 0; i < B.nbNonZeros(); ++i) {
       --B_column_data[i];
     }
   }
-- 
2.43.0


From 20b9793719ecf33d6942ad52e7d28f421303e4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 082/156] fix: compute the min and max of an array in its own
 type

---
 il/algorithm/algorithmArray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 606ab1c..8cac49c 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -31,7 +31,7 @@ template <typename T>
 T min(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t min_value = v[0];
+  T min_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -44,7 +44,7 @@ template <typename T>
 T min(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t min_value = v[range.begin];
+  T min_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -57,7 +57,7 @@ template <typename T>
 T max(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = v[0];
+  T max_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -70,7 +70,7 @@ template <typename T>
 T max(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = v[range.begin];
+  T max_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -83,7 +83,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = il::abs(v[0]);
+  T max_value = il::abs(v[0]);
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
@@ -96,7 +96,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = il::abs(v[range.begin]);
+  T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = il::abs(v[i]);
-- 
2.43.0


From 8b77a9d524a349bc8ba7c774f1ea2090ece520e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 083/156] fix: stay within the range in minMax

---
 il/algorithm/algorithmArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 8cac49c..f24b52d 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -221,11 +221,11 @@ MinMax<T> minMax(const il::Array<T>& v) {
 
 template <typename T>
 MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
-  IL_EXPECT_FAST(v.size() > 0);
+  IL_EXPECT_FAST(range.begin < range.end);
 
   MinMax<T> ans{};
   ans.min = v[range.begin];
-  ans.max = v[range.end];
+  ans.max = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < ans.min) {
       ans.min = v[i];
-- 
2.43.0


From b0e733bbd0790839610a59817c2d15db78dd893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 084/156] fix: sort arrays with many equal elements

---
 il/algorithm/algorithmArray.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index f24b52d..03fb948 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -301,9 +301,20 @@ void sort_aux(il::Range range, il::io_t, il::Array<T>& v) {
     v[i_end] = v[j];
     v[j] = aux;
   }
+  // Move the elements which are equal to the pivot next to it
+  il::int_t k = j + 1;
+  for (il::int_t i = j + 1; i < range.end; ++i) {
+    if (!(value_pivot < v[i])) {
+      // Swap v[k] and v[i]
+      const T aux = v[i];
+      v[i] = v[k];
+      v[k] = aux;
+      ++k;
+    }
+  }
   // Recursively sort the 2 other parts
   sort_aux(il::Range{range.begin, j}, il::io, v);
-  sort_aux(il::Range{j + 1, range.end}, il::io, v);
+  sort_aux(il::Range{k, range.end}, il::io, v);
 }
 
 template <typename T>
-- 
2.43.0


From 789205f7ecd33ff6faef8b9d19e105ebf2cd2cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 085/156] fix: round negative integers down in il::floor(a, b)

---
 il/math.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/il/math.h b/il/math.h
index fc77d85..430e270 100644
--- a/il/math.h
+++ b/il/math.h
@@ -102,9 +102,16 @@ inline double abs(std::complex<double> x) {
   return std::sqrt(re * re + im * im);
 }
 
-inline il::int_t floor(il::int_t a, int b) { return (a / b) * b; }
+inline il::int_t floor(il::int_t a, il::int_t b) {
+  const il::int_t r = a % b;
+  return (r != 0 && ((r < 0) != (b < 0))) ? (a - r) - b : a - r;
+}
 
-inline il::int_t floor(il::int_t a, il::int_t b) { return (a / b) * b; }
+#ifdef IL_64_BIT
+inline il::int_t floor(il::int_t a, int b) {
+  return il::floor(a, static_cast<il::int_t>(b));
+}
+#endif
 // Template for pow(x,N) where N is a positive il::int_t constant.
 // General case, N is not a power of 2:
 template <bool IsPowerOf2, il::int_t N, typename T>
-- 
2.43.0


From cdf30127caf47a9b9f36ac2a98603d39c524de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 086/156] fix: do not overflow in ipow when the result is
 representable

---
 il/math.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/il/math.h b/il/math.h
index 430e270..050f29c 100644
--- a/il/math.h
+++ b/il/math.h
@@ -170,8 +170,10 @@ T ipow(T x, il::int_t n) {
     if (n & 1) {
       ans *= x;
     }
-    x *= x;
     n >>= 1;
+    if (n != 0) {
+      x *= x;
+    }
   }
   return ans;
 }
-- 
2.43.0


From e6a07d408029f6878485c41f735fbb9ca2137acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 087/156] fix: end nextLog2 for numbers above the largest power
 of two

---
 il/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/math.h b/il/math.h
index 050f29c..182483f 100644
--- a/il/math.h
+++ b/il/math.h
@@ -246,7 +246,7 @@ inline int nextLog2(std::size_t x) {
   //  return table_log2_64[index];
   std::size_t power = 1;
   int k = 0;
-  while (power < x) {
+  while (power != 0 && power < x) {
     power *= 2;
     k += 1;
   }
@@ -268,7 +268,7 @@ inline int next_log2_32(unsigned int x) {
   //  return table_log2_32[index];
   unsigned int power = 1;
   int k = 0;
-  while (power < x) {
+  while (power != 0 && power < x) {
     power *= 2;
     k += 1;
   }
-- 
2.43.0


From 1c247337522275d9c720ffa3161ea6e98f0a73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 088/156] fix: compute the norm of tridiagonal matrices of
 dimension 0 and 1

---
 il/linearAlgebra/dense/norm.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/il/linearAlgebra/dense/norm.h b/il/linearAlgebra/dense/norm.h
index b3badce..2229e1e 100644
--- a/il/linearAlgebra/dense/norm.h
+++ b/il/linearAlgebra/dense/norm.h
@@ -148,12 +148,16 @@ double norm(const il::TriDiagonal<T>& A, Norm norm_type) {
 
   switch (norm_type) {
     case Norm::Linf: {
-      il::Array<T> sum_row{n};
-      sum_row[0] = il::abs(A(0, 0)) + il::abs(A(0, 1));
-      for (il::int_t i = 1; i < n - 1; ++i) {
-        sum_row[i] = il::abs(A(i, -1)) + il::abs(A(i, 0)) + il::abs(A(i, 1));
+      il::Array<T> sum_row{n, 0};
+      for (il::int_t i = 0; i < n; ++i) {
+        if (i > 0) {
+          sum_row[i] += il::abs(A(i, -1));
+        }
+        sum_row[i] += il::abs(A(i, 0));
+        if (i + 1 < n) {
+          sum_row[i] += il::abs(A(i, 1));
+        }
       }
-      sum_row[n - 1] = il::abs(A(n - 1, -1)) + il::abs(A(n - 1, 0));
       for (il::int_t i = 0; i < sum_row.size(); ++i) {
         ans = il::max(ans, sum_row[i]);
       }
-- 
2.43.0


From a91e8fadb66abcc1c4519920204b8a0f7012ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 089/156] fix: check the sizes of the weights of the norm of a
 sparse matrix

---
 il/container/2d/SparseMatrixCSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index c7b80db..dde3440 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -325,8 +325,8 @@ template <typename Index>
 inline double norm(const il::SparseMatrixCSR<Index, double> &A, Norm norm_type,
                    const il::Array<double> &beta,
                    const il::Array<double> &alpha) {
-  IL_EXPECT_FAST(alpha.size() == A.size(0));
-  IL_EXPECT_FAST(beta.size() == A.size(1));
+  IL_EXPECT_FAST(alpha.size() == A.size(1));
+  IL_EXPECT_FAST(beta.size() == A.size(0));
 
   double norm = 0.0;
   switch (norm_type) {
-- 
2.43.0


From 29362405da87fc650c6332d197b4fafd165cae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:50 +0000
Subject: [PATCH 090/156] fix: make the max of two int unambiguous

---
 il/core/core.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/core/core.h b/il/core/core.h
index a85c352..3a02e42 100644
--- a/il/core/core.h
+++ b/il/core/core.h
@@ -189,6 +189,8 @@ T max(int a, T b) {
   return a >= b ? a : b;
 }
 
+inline int max(int a, int b) { return a >= b ? a : b; }
+
 template <typename T>
 T max(T a, T b, T c) {
   return max(max(a, b), c);
-- 
2.43.0


From 6fb7a932dc1ba0d5887e6ba65d8a5c32fadedf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:17 +0000
Subject: [PATCH 091/156] fix: compute the min and max of a column at the
 limits of its type

---
 il/algorithm/algorithmArray2D.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/algorithm/algorithmArray2D.h b/il/algorithm/algorithmArray2D.h
index bf36f4d..fddcf6b 100644
--- a/il/algorithm/algorithmArray2D.h
+++ b/il/algorithm/algorithmArray2D.h
@@ -31,9 +31,9 @@ MinMax<T> minMax(const il::Array2D<T>& A, il::Range i0_range, il::int_t i1) {
   IL_EXPECT_FAST(i0_range.begin < i0_range.end);
 
   MinMax<T> ans{};
-  ans.min = std::numeric_limits<T>::max();
-  ans.max = -std::numeric_limits<T>::max();
-  for (il::int_t i0 = i0_range.begin; i0 < i0_range.end; ++i0) {
+  ans.min = A(i0_range.begin, i1);
+  ans.max = A(i0_range.begin, i1);
+  for (il::int_t i0 = i0_range.begin + 1; i0 < i0_range.end; ++i0) {
     if (A(i0, i1) < ans.min) {
       ans.min = A(i0, i1);
     }
-- 
2.43.0


From f3ffbf6acfed546bf66caf3e45251ef49e1b9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:05 +0000
Subject: [PATCH 092/156] fix: compare absolute values in maxAbs over a range

---
 il/algorithm/algorithmArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 03fb948..1faa916 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -98,7 +98,7 @@ T maxAbs(const il::Array<T>& v, il::Range range) {
 
   T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-    if (v[i] > max_value) {
+    if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
     }
   }
-- 
2.43.0


From b769ee8a36c769cf0593ac987807c951c8b5f13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 093/156] fix: fix: BLAS operations on empty vectors and
 matrices

---
 il/linearAlgebra/dense/blas/blas.h | 119 +++++++++++++++--------------
 1 file changed, 63 insertions(+), 56 deletions(-)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index c477d8b..0fb11d3 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -49,6 +49,13 @@ inline CBLAS_TRANSPOSE blas_from_dot(il::Dot op) {
   }
 }
 
+// BLAS asks for leading dimensions that are at least 1, even for the matrices
+// without any element
+
+inline IL_CBLAS_INT blas_stride(il::int_t stride) {
+  return static_cast<IL_CBLAS_INT>(stride > 0 ? stride : 1);
+}
+
 // y = alpha * x + y
 
 inline void blas(float alpha, il::ArrayView<float> x, il::io_t,
@@ -362,13 +369,13 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -397,13 +404,13 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -434,13 +441,13 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -477,13 +484,13 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -519,13 +526,13 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -553,13 +560,13 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -590,13 +597,13 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -633,13 +640,13 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -678,8 +685,8 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
+  IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -690,9 +697,9 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(1));
   cblas_sgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -731,8 +738,8 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
+  IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -743,9 +750,9 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(1));
   cblas_dgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -786,8 +793,8 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
+  IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -798,9 +805,9 @@ inline void blas(std::complex<float> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(1));
 #ifdef IL_MKL
   cblas_cgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -856,8 +863,8 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
+  IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -868,9 +875,9 @@ inline void blas(std::complex<double> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(1));
 #ifdef IL_MKL
   cblas_zgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -924,8 +931,8 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
+  IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -936,9 +943,9 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(0));
   cblas_sgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -977,8 +984,8 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
+  IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -989,9 +996,9 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(0));
   cblas_dgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -1032,8 +1039,8 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
+  IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1044,9 +1051,9 @@ inline void blas(std::complex<float> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(0));
 #ifdef IL_MKL
   cblas_cgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -1102,8 +1109,8 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
+  IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1114,9 +1121,9 @@ inline void blas(std::complex<double> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(0));
 #ifdef IL_MKL
   cblas_zgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
-- 
2.43.0


From 9db1d1c44004710fc0b0adccdc61fa0b0a81048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 094/156] fix: fix: product of a matrix with no column and an
 empty vector

---
 il/linearAlgebra/dense/blas/blas.h | 50 ++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 0fb11d3..1fdc969 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -56,6 +56,16 @@ inline IL_CBLAS_INT blas_stride(il::int_t stride) {
   return static_cast<IL_CBLAS_INT>(stride > 0 ? stride : 1);
 }
 
+// y = beta * y, what is left of alpha * A.x + beta * y when x is empty, for
+// which BLAS returns without writing anything
+
+template <typename T>
+void blas_scale(T beta, il::io_t, il::ArrayEdit<T> y) {
+  for (il::int_t i = 0; i < y.size(); ++i) {
+    y[i] = (beta == T{0}) ? T{0} : beta * y[i];
+  }
+}
+
 // y = alpha * x + y
 
 inline void blas(float alpha, il::ArrayView<float> x, il::io_t,
@@ -371,6 +381,11 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
   }
   IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
+
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
@@ -406,6 +421,11 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot op,
   }
   IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
+
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
@@ -443,6 +463,11 @@ inline void blas(std::complex<float> alpha,
   }
   IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
+
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
@@ -486,6 +511,11 @@ inline void blas(std::complex<double> alpha,
   }
   IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
+
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
@@ -528,6 +558,11 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot op,
   }
   IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
+
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
@@ -562,6 +597,11 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
   }
   IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
+
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
@@ -599,6 +639,11 @@ inline void blas(std::complex<float> alpha,
   }
   IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
+
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
@@ -642,6 +687,11 @@ inline void blas(std::complex<double> alpha,
   }
   IL_EXPECT_FAST(x.data() == nullptr || x.data() != y.data());
 
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
+
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
-- 
2.43.0


From 4d2cdc1097181df724a22c6f158a737e654124f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 095/156] fix: fix: il::Dot::Star for row-major real matrices

---
 il/linearAlgebra/dense/blas/blas.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 1fdc969..76dc3e3 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -589,6 +589,7 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
       IL_EXPECT_FAST(A.size(1) == x.size());
       break;
     case il::Dot::Transpose:
+    case il::Dot::Star:
       IL_EXPECT_FAST(A.size(0) == x.size());
       IL_EXPECT_FAST(A.size(1) == y.size());
       break;
-- 
2.43.0


From 8a6715c2ab3d0e03ed1cd16f35be9b5df4ab20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 096/156] fix: fix: check the sizes of a product of two
 transposed matrices

---
 il/linearAlgebra/dense/blas/blas.h | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 76dc3e3..64e5c01 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -735,6 +735,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
   IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
@@ -788,6 +792,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
   IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
@@ -843,6 +851,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
   IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
@@ -913,6 +925,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
   IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
@@ -981,6 +997,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
   IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
@@ -1034,6 +1054,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
   IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
@@ -1089,6 +1113,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
   IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
@@ -1159,6 +1187,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() == nullptr || A.data() != C.data());
   IL_EXPECT_FAST(B.data() == nullptr || B.data() != C.data());
-- 
2.43.0


From 7171d60a6514866dc4157f8e9f9db8afdcd5049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 097/156] fix: fix: il::Cholesky compiles, and gives the whole
 inverse

---
 .../dense/factorization/Cholesky.h            | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Cholesky.h b/il/linearAlgebra/dense/factorization/Cholesky.h
index aba83b8..8c7301a 100644
--- a/il/linearAlgebra/dense/factorization/Cholesky.h
+++ b/il/linearAlgebra/dense/factorization/Cholesky.h
@@ -63,7 +63,7 @@ class Cholesky<il::Array2D<double>> {
   double conditionNumber(il::Norm norm_type, double norm_a) const;
 };
 
-Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
+inline Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
                                         il::Status& status)
     : l_{} {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
@@ -73,7 +73,7 @@ Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
   const lapack_int n = static_cast<lapack_int>(A.size(0));
   const lapack_int lda = static_cast<lapack_int>(A.stride(1));
   const lapack_int lapack_error =
-      LAPACKE_dpotrf(layout, uplo, n, A.data(), lda);
+      LAPACKE_dpotrf(layout, uplo, n, A.Data(), lda);
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
     status.SetOk();
@@ -83,13 +83,13 @@ Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
   }
 }
 
-il::int_t Cholesky<il::Array2D<double>>::size(il::int_t d) const {
+inline il::int_t Cholesky<il::Array2D<double>>::size(il::int_t d) const {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(d) < static_cast<std::size_t>(2));
 
   return l_.size(d);
 }
 
-il::Array<double> Cholesky<il::Array2D<double>>::solve(
+inline il::Array<double> Cholesky<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(l_.size(0) == y.size());
 
@@ -100,37 +100,44 @@ il::Array<double> Cholesky<il::Array2D<double>>::solve(
   const lapack_int lda = static_cast<lapack_int>(l_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error =
-      LAPACKE_dpotrs(layout, uplo, n, nrhs, l_.data(), lda, y.data(), ldy);
+      LAPACKE_dpotrs(layout, uplo, n, nrhs, l_.data(), lda, y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return y;
 }
 
-il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
+inline il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
   il::Array2D<double> inverse{l_};
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
   const lapack_int n = static_cast<lapack_int>(inverse.size(0));
   const lapack_int lda = static_cast<lapack_int>(inverse.stride(1));
   const lapack_int lapack_error =
-      LAPACKE_dpotri(layout, uplo, n, inverse.data(), lda);
+      LAPACKE_dpotri(layout, uplo, n, inverse.Data(), lda);
   IL_EXPECT_FAST(lapack_error == 0);
 
+  // Only the lower part has been computed
+  for (il::int_t i1 = 0; i1 < inverse.size(1); ++i1) {
+    for (il::int_t i0 = 0; i0 < i1; ++i0) {
+      inverse(i0, i1) = inverse(i1, i0);
+    }
+  }
+
   return inverse;
 }
 
-double Cholesky<il::Array2D<double>>::conditionNumber(il::Norm norm_type,
+inline double Cholesky<il::Array2D<double>>::conditionNumber(il::Norm norm_type,
                                                       double norm_a) const {
   IL_EXPECT_FAST(norm_type == il::Norm::L1 || norm_type == il::Norm::Linf);
 
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
-  const char lapack_norm = (norm_type == il::Norm::L1) ? '1' : 'I';
+  IL_UNUSED(norm_type);
   const lapack_int n = static_cast<lapack_int>(l_.size(0));
   const lapack_int lda = static_cast<lapack_int>(l_.stride(1));
   double rcond;
   const lapack_int lapack_error =
-      LAPACKE_dpocon(layout, lapack_norm, n, l_.data(), lda, norm_a, &rcond);
+      LAPACKE_dpocon(layout, uplo, n, l_.data(), lda, norm_a, &rcond);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return 1.0 / rcond;
@@ -145,7 +152,7 @@ class Cholesky<LowerArray2D<double>> {
   Cholesky(il::LowerArray2D<double> A, il::io_t, il::Status& status);
 };
 
-Cholesky<LowerArray2D<double>>::Cholesky(il::LowerArray2D<double> A, il::io_t,
+inline Cholesky<LowerArray2D<double>>::Cholesky(il::LowerArray2D<double> A, il::io_t,
                                          il::Status& status)
     : l_{} {
   const int layout = LAPACK_COL_MAJOR;
-- 
2.43.0


From e08a959bbd3ee40898d61c9ea4d55fbfa9bbfffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 098/156] fix: fix: luDecomposition and qrDecomposition are
 inline

---
 il/linearAlgebra/dense/factorization/luDecomposition.h | 4 ++--
 il/linearAlgebra/dense/factorization/qrDecomposition.h | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/luDecomposition.h b/il/linearAlgebra/dense/factorization/luDecomposition.h
index c796dea..05f6c2c 100644
--- a/il/linearAlgebra/dense/factorization/luDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/luDecomposition.h
@@ -33,7 +33,7 @@
 
 namespace il {
 
-void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
+inline void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
                      il::Array2DEdit<double> A) {
   IL_EXPECT_MEDIUM(A.size(0) == A.size(1));
   IL_EXPECT_MEDIUM(A.size(0) == pivot.size());
@@ -48,7 +48,7 @@ void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
+inline void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
                      il::Array2DEdit<std::complex<double>> A) {
   IL_EXPECT_MEDIUM(A.size(0) == A.size(1));
   IL_EXPECT_MEDIUM(A.size(0) == pivot.size());
diff --git a/il/linearAlgebra/dense/factorization/qrDecomposition.h b/il/linearAlgebra/dense/factorization/qrDecomposition.h
index d492fa1..2078c9e 100644
--- a/il/linearAlgebra/dense/factorization/qrDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/qrDecomposition.h
@@ -24,6 +24,7 @@
 #include <il/Array2CView.h>
 #include <il/Array2DView.h>
 #include <il/ArrayView.h>
+#include <il/math.h>
 
 #ifdef IL_MKL
 #include <mkl_lapacke.h>
@@ -33,7 +34,7 @@
 
 namespace il {
 
-void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
+inline void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
                      il::Array2DEdit<double> A) {
   IL_EXPECT_MEDIUM(tau.size() == il::min(A.size(0), A.size(1)));
 
@@ -46,7 +47,7 @@ void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-void qrDecomposition(il::io_t, il::ArrayEdit<std::complex<double>> tau,
+inline void qrDecomposition(il::io_t, il::ArrayEdit<std::complex<double>> tau,
                      il::Array2DEdit<std::complex<double>> A) {
   IL_EXPECT_MEDIUM(tau.size() == il::min(A.size(0), A.size(1)));
 
-- 
2.43.0


From dc0e89f1b46e64b233e4799db5a0967f75fe6e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:51 +0000
Subject: [PATCH 099/156] fix: fix: sign of the determinant computed from a LU
 factorization

---
 il/linearAlgebra/dense/factorization/LU.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index d87cabb..24c5746 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -291,6 +291,10 @@ inline double LU<il::Array2D<double>>::determinant() const {
   double det = 1.0;
   for (il::int_t i = 0; i < lu_.size(0); ++i) {
     det *= lu_(i, i);
+    // Each interchange of rows changes the sign
+    if (ipiv_[i] != i + 1) {
+      det = -det;
+    }
   }
 
   return det;
-- 
2.43.0


From 96b8e93b00a3605ffc5fa7fcce985fd31d0df356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:51 +0000
Subject: [PATCH 100/156] fix: fix: LU::solve for matrices with spare capacity

---
 il/linearAlgebra/dense/factorization/LU.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index 24c5746..0fc29be 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -239,12 +239,13 @@ inline il::int_t LU<il::Array2D<double>>::size(il::int_t d) const {
 inline il::Array<double> LU<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(lu_.size(0) == lu_.size(1));
+  IL_EXPECT_FAST(lu_.size(0) == y.size());
 
   const int layout = LAPACK_COL_MAJOR;
   const char trans = 'N';
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = 1;
-  const lapack_int lda = static_cast<lapack_int>(lu_.size(0));
+  const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
@@ -263,7 +264,7 @@ inline il::Array2D<double> LU<il::Array2D<double>>::solve(
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = static_cast<lapack_int>(y.size(1));
   const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
-  const lapack_int ldy = n;
+  const lapack_int ldy = static_cast<lapack_int>(y.stride(1));
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
-- 
2.43.0


From 080db5d5b0fffe47a94419133444b39371581f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:51 +0000
Subject: [PATCH 101/156] fix: fix: linearSolve for band matrices

---
 .../dense/factorization/linearSolve.h         | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/linearSolve.h b/il/linearAlgebra/dense/factorization/linearSolve.h
index fbda6c0..b993706 100644
--- a/il/linearAlgebra/dense/factorization/linearSolve.h
+++ b/il/linearAlgebra/dense/factorization/linearSolve.h
@@ -95,18 +95,30 @@ inline il::Array<double> linearSolve(il::BandArray2C<double> A,
   IL_EXPECT_FAST(y.size() == A.size(1));
   IL_EXPECT_FAST(A.capacityRight() >= A.widthLeft() + A.widthRight());
 
-  il::Array<lapack_int> ipiv{A.size(1)};
+  const il::int_t size = A.size(1);
+  const il::int_t width_left = A.widthLeft();
+  const il::int_t width_right = A.widthRight();
+  il::Array<lapack_int> ipiv{size};
+
+  // LAPACK stores the diagonals in rows, with space above for the fill-in
+  il::Array2D<double> AB{2 * width_left + width_right + 1, size, 0.0};
+  for (il::int_t i0 = 0; i0 < size; ++i0) {
+    for (il::int_t k = -width_left; k <= width_right; ++k) {
+      if (i0 + k >= 0 && i0 + k < size) {
+        AB(width_left + width_right - k, i0 + k) = A(i0, k);
+      }
+    }
+  }
 
-  const int layout{LAPACK_ROW_MAJOR};
-  const lapack_int n{static_cast<lapack_int>(A.size(1))};
-  const lapack_int kl{static_cast<lapack_int>(A.widthLeft())};
-  const lapack_int ku{static_cast<lapack_int>(A.widthRight())};
+  const int layout{LAPACK_COL_MAJOR};
+  const lapack_int n{static_cast<lapack_int>(size)};
+  const lapack_int kl{static_cast<lapack_int>(width_left)};
+  const lapack_int ku{static_cast<lapack_int>(width_right)};
   const lapack_int nrhs = 1;
-  const lapack_int ldab{
-      static_cast<lapack_int>(A.widthLeft() + 1 + A.capacityRight())};
-  const lapack_int ldb = 1;
+  const lapack_int ldab{static_cast<lapack_int>(AB.stride(1))};
+  const lapack_int ldb{n};
   const lapack_int lapack_error{LAPACKE_dgbsv(
-      layout, n, kl, ku, nrhs, A.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
+      layout, n, kl, ku, nrhs, AB.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
-- 
2.43.0


From 753aa136b6311ce27acfecb8f22d3009b4274ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:08 +0000
Subject: [PATCH 102/156] fix: fix: members of il::Eigen are inline

---
 il/linearAlgebra/dense/factorization/Eigen.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Eigen.h b/il/linearAlgebra/dense/factorization/Eigen.h
index 635a41e..fe014b0 100644
--- a/il/linearAlgebra/dense/factorization/Eigen.h
+++ b/il/linearAlgebra/dense/factorization/Eigen.h
@@ -53,7 +53,7 @@ class Eigen<il::Array2D<double>> {
   il::Array<std::complex<double>> eigenValue() const;
 };
 
-Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
+inline Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
                                   il::Status& status)
     : eigen_value_{}, eigen_value_r_{}, eigen_value_i_{} {
   IL_EXPECT_FAST(A.size(0) > 0);
@@ -92,7 +92,8 @@ Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
   }
 }
 
-il::Array<std::complex<double>> Eigen<il::Array2D<double>>::eigenValue() const {
+inline il::Array<std::complex<double>> Eigen<il::Array2D<double>>::eigenValue()
+    const {
   il::Array<std::complex<double>> ans{eigen_value_r_.size()};
 
   for (il::int_t i = 0; i < ans.size(); ++i) {
-- 
2.43.0


From 17df4b1a11e9e4af07c7625a5e13354bdb747e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 103/156] fix: Pardiso: inline functions, release before
 reanalysis, iterative breakdown

---
 .../sparse/factorization/Pardiso.h            | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index 0878034..31eabd8 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -67,7 +67,7 @@ void PardisoSizeIntSelector<Int>::pardiso_int_t(
 }
 
 template <>
-void PardisoSizeIntSelector<int>::pardiso_int_t(
+inline void PardisoSizeIntSelector<int>::pardiso_int_t(
     _MKL_DSS_HANDLE_t pt, const int *maxfct, const int *mnum, const int *mtype,
     const int *phase, const int *n, const void *a, const int *ia, const int *ja,
     int *perm, const int *nrhs, int *iparm, const int *msglvl, void *b, void *x,
@@ -77,7 +77,7 @@ void PardisoSizeIntSelector<int>::pardiso_int_t(
 }
 
 template <>
-void PardisoSizeIntSelector<std::ptrdiff_t>::pardiso_int_t(
+inline void PardisoSizeIntSelector<std::ptrdiff_t>::pardiso_int_t(
     _MKL_DSS_HANDLE_t pt, const std::ptrdiff_t *maxfct,
     const std::ptrdiff_t *mnum, const std::ptrdiff_t *mtype,
     const std::ptrdiff_t *phase, const std::ptrdiff_t *n, const void *a,
@@ -292,18 +292,18 @@ inline Pardiso::Pardiso() {
 
 inline Pardiso::~Pardiso() { Release(); }
 
-void Pardiso::SymbolicFactorization(
+inline void Pardiso::SymbolicFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
-  n_ = A.size(0);
 
   const il::int_t phase = 11;
   il::int_t error = 0;
   il::int_t i_dummy;
 
-  if (is_numerical_factorization_) {
+  if (is_symbolic_factorization_) {
     Release();
   }
+  n_ = A.size(0);
   PardisoSizeIntSelector<il::int_t>::pardiso_int_t(
       pardiso_pt_, &pardiso_max_fact_, &pardiso_mnum_, &pardiso_mtype_, &phase,
       &n_, A.elementData(), A.rowData(), A.columnData(), &i_dummy,
@@ -315,7 +315,7 @@ void Pardiso::SymbolicFactorization(
   matrix_element_ = A.elementData();
 }
 
-void Pardiso::NumericalFactorization(
+inline void Pardiso::NumericalFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(matrix_element_ = A.elementData());
   IL_EXPECT_FAST(is_symbolic_factorization_);
@@ -382,10 +382,14 @@ inline il::Array<double> Pardiso::SolveIterative(
       &n_, A.elementData(), A.rowData(), A.columnData(), &i_dummy,
       &pardiso_nrhs_, pardiso_iparm_, &pardiso_msglvl_,
       const_cast<double *>(y.data()), x.Data(), &error);
-  IL_EXPECT_FAST(error == 0);
-
   pardiso_iparm_[3] = old_solver;
 
+  // The iterations of the conjugate gradient squared method may break down, for
+  // instance with a null second member. In that case, we use the factorization.
+  if (error != 0) {
+    return Solve(A, y);
+  }
+
   return x;
 }
 
-- 
2.43.0


From fa9b2f51ef4e1624e4ffce5898841f0bf6ba5aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 104/156] fix: Cg: inline functions, true residual with a
 preconditioner

---
 il/linearAlgebra/matrixFree/solver/Cg.h | 33 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index 8d0b3af..3e51e31 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -90,7 +90,7 @@ class Cg<double> {
   il::int_t maxNbIterations() const;
 };
 
-Cg<double>::Cg(const il::FunctorArray<double>& A) {
+inline Cg<double>::Cg(const il::FunctorArray<double>& A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
 
   il::int_t n = A.size(0);
@@ -108,7 +108,7 @@ Cg<double>::Cg(const il::FunctorArray<double>& A) {
   nb_iterations_ = -1;
 }
 
-Cg<double>::Cg(const il::FunctorArray<double>& A,
+inline Cg<double>::Cg(const il::FunctorArray<double>& A,
                const il::FunctorArray<double>& B) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   IL_EXPECT_FAST(B.size(0) == B.size(1));
@@ -129,7 +129,7 @@ Cg<double>::Cg(const il::FunctorArray<double>& A,
   nb_iterations_ = -1;
 }
 
-il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
+inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
                                     il::Status& status) {
   IL_EXPECT_FAST(y.size() == n_);
 
@@ -207,7 +207,7 @@ il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
   return x;
 }
 
-void Cg<double>::SetToSolve(il::ArrayView<double> y) {
+inline void Cg<double>::SetToSolve(il::ArrayView<double> y) {
   IL_EXPECT_FAST(y.size() == n_);
 
   for (il::int_t i = 0; i < n_; ++i) {
@@ -298,7 +298,7 @@ void Cg<double>::SetToSolve(il::ArrayView<double> y) {
   IL_ENSURE(rci_request_ == 0);
 }
 
-void Cg<double>::Next() {
+inline void Cg<double>::Next() {
   bool stop_loop = false;
   il::int_t initial_nb_iterations = nb_iterations_;
 
@@ -324,7 +324,10 @@ void Cg<double>::Next() {
                 dpar_.data(), tmp_.data(), &nb_iterations);
         nb_iterations_ = nb_iterations;
 
-        norm_residual_ = std::sqrt(dpar_[4]);
+        // The norm stored in dpar_[4] is the one of the preconditionner. The
+        // residual itself is in tmp_[2 * n_]
+        MKL_INT integer_one = 1;
+        norm_residual_ = dnrm2(&n_, tmp_.data() + 2 * n_, &integer_one);
         if (nb_iterations_ == initial_nb_iterations + 1) {
           stop_loop = true;
         }
@@ -341,39 +344,39 @@ void Cg<double>::Next() {
   }
 }
 
-double Cg<double>::trueResidualNorm() const { return norm_residual_; }
+inline double Cg<double>::trueResidualNorm() const { return norm_residual_; }
 
-il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
+inline il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
 
-void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
+inline void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
   for (il::int_t i = 0; i < n_; ++i) {
     x[i] = x_[i];
   }
 }
 
-void Cg<double>::SetRelativePrecision(double relative_precision) {
+inline void Cg<double>::SetRelativePrecision(double relative_precision) {
   IL_EXPECT_MEDIUM(relative_precision >= 0.0);
 
   relative_precision_ = relative_precision;
 }
 
-void Cg<double>::SetAbsolutionPrecision(double absolute_precision) {
+inline void Cg<double>::SetAbsolutionPrecision(double absolute_precision) {
   IL_EXPECT_MEDIUM(absolute_precision >= 0.0);
 
   absolute_precision_ = absolute_precision;
 }
 
-void Cg<double>::SetMaxNbIterations(il::int_t max_nb_iterations) {
+inline void Cg<double>::SetMaxNbIterations(il::int_t max_nb_iterations) {
   IL_EXPECT_MEDIUM(max_nb_iterations >= 0);
 
   max_nb_iterations_ = max_nb_iterations;
 }
 
-double Cg<double>::relativePrecision() const { return relative_precision_; }
+inline double Cg<double>::relativePrecision() const { return relative_precision_; }
 
-double Cg<double>::absolutePrecision() const { return absolute_precision_; }
+inline double Cg<double>::absolutePrecision() const { return absolute_precision_; }
 
-il::int_t Cg<double>::maxNbIterations() const { return max_nb_iterations_; }
+inline il::int_t Cg<double>::maxNbIterations() const { return max_nb_iterations_; }
 
 }  // namespace il
 
-- 
2.43.0


From 644a5afa36b1f1ed42c2a4f05db1c25cd1445da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:43 +0000
Subject: [PATCH 105/156] fix: Gmres: status when not converged, solution after
 a restart

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 107 +++++++++++++++------
 1 file changed, 77 insertions(+), 30 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 8e51d5f..300195f 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -19,8 +19,10 @@
 #ifndef IL_GMRES_H
 #define IL_GMRES_H
 
+#include <il/Array.h>
 #include <il/ArrayView.h>
 #include <il/StaticArray.h>
+#include <il/Status.h>
 
 #include "mkl_blas.h"
 #include "mkl_rci.h"
@@ -97,6 +99,11 @@ class Gmres {
              il::Status& status);
   il::Array<T> solve(const il::Array<T>& y);
   il::int_t nbIterations() const;
+
+ private:
+  // Computes the norm of the residual of the current solution and returns the
+  // number of iterations
+  int UpdateResidual();
 };
 
 template <typename T>
@@ -131,6 +138,8 @@ Gmres<T>::Gmres(const il::FunctorArray<T>& m, const il::FunctorArray<T>& cond,
 
   n_ = m.size(1);
   restart_iteration_ = restart_iteration;
+  max_nb_iterations_ = 100;
+
   const il::int_t tmp_size = (2 * restart_iteration_ + 1) * n_ +
                              restart_iteration_ * (restart_iteration_ + 9) / 2 +
                              1;
@@ -143,6 +152,18 @@ Gmres<T>::Gmres(const il::FunctorArray<T>& m, const il::FunctorArray<T>& cond,
   nb_iterations_ = -1;
 }
 
+template <typename T>
+void Gmres<T>::SetMaxNbIterations(il::int_t max_nb_iterations) {
+  IL_EXPECT_MEDIUM(max_nb_iterations >= 0);
+
+  max_nb_iterations_ = max_nb_iterations;
+}
+
+template <typename T>
+il::int_t Gmres<T>::maxNbIterations() const {
+  return max_nb_iterations_;
+}
+
 template <typename T>
 void Gmres<T>::SetToSolve(const il::Array<double>& y) {
   this->SetToSolve(y.view());
@@ -232,17 +253,41 @@ double Gmres<T>::normResidual() const {
   return norm_residual_;
 }
 
+template <typename T>
+int Gmres<T>::UpdateResidual() {
+  const int one_int = 1;
+  const double minus_one_double = -1.0;
+  int itercount = 0;
+
+  ipar_[12] = 1;
+  // Retrieve iteration number AND update sol
+  dfgmres_get(&n_, x_.Data(), ycopy_.Data(), &RCI_request_, ipar_.data(),
+              dpar_.data(), tmp_.Data(), &itercount);
+  // Compute the current true residual via MKL (Sparse) BLAS
+  // routines. It multiplies the matrix A with yCopy and
+  // store the result in residual.
+  //--------------- To Change
+  il::ArrayView<double> my_x = ycopy_.view();
+  il::ArrayEdit<double> my_y = residual_.Edit();
+  for (il::int_t i = 0; i < n_; ++i) {
+    my_y[i] = 0.0;
+  }
+  (*m_)(my_x, il::io, my_y);
+  // Compute: residual = A.(current x) - y
+  // Note that A.(current x) is stored in residual before this operation
+  daxpy(&n_, &minus_one_double, yloc_.data(), &one_int, residual_.Data(),
+        &one_int);
+
+  norm_residual_ = dnrm2(&n_, residual_.data(), &one_int);
+
+  return itercount;
+}
+
 template <typename T>
 void Gmres<T>::Next() {
   IL_EXPECT_FAST(RCI_request_ == 0);
 
-  const char l_char = 'L';
-  const char n_char = 'N';
-  const char u_char = 'U';
-  const int one_int = 1;
-  const double minus_one_double = -1.0;
   bool stop_iteration = false;
-  double y_norm = dnrm2(&n_, yloc_.data(), &one_int);
   int itercount = static_cast<il::int_t>(nb_iterations_);
   int begin_itercount = itercount;
 
@@ -267,26 +312,7 @@ void Gmres<T>::Next() {
         (*m_)(my_x, il::io, my_y);
       } break;
       case 2: {
-        ipar_[12] = 1;
-        // Retrieve iteration number AND update sol
-        dfgmres_get(&n_, x_.Data(), ycopy_.Data(), &RCI_request_, ipar_.data(),
-                    dpar_.data(), tmp_.Data(), &itercount);
-        // Compute the current true residual via MKL (Sparse) BLAS
-        // routines. It multiplies the matrix A with yCopy and
-        // store the result in residual.
-        //--------------- To Change
-        il::ArrayView<double> my_x = ycopy_.view();
-        il::ArrayEdit<double> my_y = residual_.Edit();
-        for (il::int_t i = 0; i < n_; ++i) {
-          my_y[i] = 0.0;
-        }
-        (*m_)(my_x, il::io, my_y);
-        // Compute: residual = A.(current x) - y
-        // Note that A.(current x) is stored in residual before this operation
-        daxpy(&n_, &minus_one_double, yloc_.data(), &one_int, residual_.Data(),
-              &one_int);
-
-        norm_residual_ = dnrm2(&n_, residual_.data(), &one_int);
+        itercount = this->UpdateResidual();
         if (itercount == begin_itercount + 1) {
           stop_iteration = true;
         }
@@ -317,6 +343,7 @@ void Gmres<T>::Next() {
         // computational errors. The norm is contained in DPAR(7)
         // parameter
         if (dpar_[6] == 0.0) {
+          itercount = this->UpdateResidual();
           stop_iteration = true;
         }
         break;
@@ -335,7 +362,7 @@ void Gmres<T>::getSolution(il::io_t, il::ArrayEdit<double> x) {
   for (il::int_t i = 0; i < n_; ++i) {
     x[i] = 0.0;
   }
-  dfgmres_get(&n_, x.Data(), x.Data(), &RCI_request_, ipar_.data(),
+  dfgmres_get(&n_, x_.Data(), x.Data(), &RCI_request_, ipar_.data(),
               dpar_.data(), tmp_.Data(), &itercount);
 }
 
@@ -419,6 +446,7 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
                 dpar_.Data(), tmp_.Data());
   IL_EXPECT_FAST(RCI_request_ == 0);
   bool stop_iteration = false;
+  bool has_converged = false;
   double y_norm = dnrm2(&n_, yloc_.data(), &one_int);
   while (!stop_iteration) {
     // The beginning of the iteration
@@ -426,8 +454,9 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
             dpar_.Data(), tmp_.Data());
     switch (RCI_request_) {
       case 0:
-        // In that case, the solution has been found with the right precision.
-        // This occurs only if the stopping test is fully automatic.
+      case -1:
+        // In that case, the right-hand side is null or the maximum number of
+        // iterations has been reached
         stop_iteration = true;
         break;
       case 1: {
@@ -463,6 +492,7 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
         double norm_residual = dnrm2(&n_, residual_.data(), &one_int);
         double error_ratio = norm_residual / y_norm;
         if (norm_residual <= relative_precision * y_norm) {
+          has_converged = true;
           stop_iteration = true;
         }
       } break;
@@ -485,6 +515,7 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
         // computational errors. The norm is contained in DPAR(7)
         // parameter
         if (dpar_[6] == 0.0) {
+          has_converged = true;
           stop_iteration = true;
         }
         break;
@@ -498,7 +529,23 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
               dpar_.data(), tmp_.Data(), &itercount);
 
   nb_iterations_ = itercount;
-  status.SetOk();
+  if (!has_converged) {
+    il::ArrayEdit<double> my_y = residual_.Edit();
+    for (il::int_t i = 0; i < n_; ++i) {
+      my_y[i] = 0.0;
+    }
+    (*m_)(x.view(), il::io, my_y);
+    for (il::int_t i = 0; i < n_; ++i) {
+      my_y[i] -= y[i];
+    }
+    has_converged = dnrm2(&n_, residual_.data(), &one_int) <=
+                    relative_precision * y_norm;
+  }
+  if (has_converged) {
+    status.SetOk();
+  } else {
+    status.SetError(il::Error::Undefined);
+  }
 }
 
 template <typename T>
-- 
2.43.0


From 556f2a071b9547811b8a45b35c743f10e307efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 106/156] fix: TOML: read lines of any length

---
 il/io/toml/toml.cpp | 32 ++++++++++++++++++++++----------
 il/io/toml/toml.h   |  6 ++++--
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 04dab1a..134b13b 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -21,22 +21,37 @@
 
 namespace il {
 
-TomlParser::TomlParser() {}
+TomlParser::TomlParser() : line_{}, line_number_{0}, file_{nullptr} {}
+
+bool TomlParser::readLine(il::io_t, il::StringView& string) {
+  line_.Resize(0);
+  int c = std::getc(file_);
+  while (c != EOF) {
+    line_.Append(static_cast<char>(c));
+    if (c == '\n') {
+      break;
+    }
+    c = std::getc(file_);
+  }
+  string = il::StringView{il::StringType::Byte, line_.data(), line_.size()};
+  if (line_.size() == 0) {
+    return false;
+  }
+  ++line_number_;
+  return true;
+}
 
 il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
                                                      il::io_t,
                                                      il::Status& status) {
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
-    const char* error = std::fgets(buffer_line_, max_line_length_ + 1, file_);
-    if (error == nullptr) {
+    if (!readLine(il::io, string)) {
       IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
       status.SetInfo("line", line_number_);
       return string;
     }
-    ++line_number_;
-    string = il::StringView{buffer_line_};
     string.trimPrefix();
   }
 
@@ -934,11 +949,8 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
-  while (std::fgets(buffer_line_, max_line_length_ + 1, file_) != nullptr) {
-    ++line_number_;
-
-    il::StringView line{il::StringType::Byte, buffer_line_,
-                        il::size(buffer_line_)};
+  il::StringView line{};
+  while (readLine(il::io, line)) {
     line = il::removeWhitespaceLeft(line);
 
     if (line.isEmpty() || line.startsWithNewLine() || line[0] == '#') {
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index bb8d1ff..bb6d5c8 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -38,8 +38,7 @@ namespace il {
 
 class TomlParser {
  private:
-  static const il::int_t max_line_length_ = 200;
-  char buffer_line_[max_line_length_ + 1];
+  il::Array<char> line_;
   il::int_t line_number_;
   std::FILE *file_;
 
@@ -85,6 +84,9 @@ class TomlParser {
 
  private:
   static bool containsDigit(char c);
+  // Reads a full line, including the '\n' at its end. Returns false if the end of
+  // the file has been reached.
+  bool readLine(il::io_t, il::StringView &string);
 };
 
 inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
-- 
2.43.0


From f5343eae179fb82953cbbba67b0a2e08a84d9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 107/156] fix: TOML: open the file for reading, close it on
 errors

---
 il/io/toml/toml.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 134b13b..b33fab9 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -937,10 +937,10 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   il::MapArray<il::String, il::Dynamic>* pointer_toml = &root_toml;
 
 #ifdef IL_UNIX
-  file_ = std::fopen(filename.asCString(), "r+b");
+  file_ = std::fopen(filename.asCString(), "rb");
 #else
   il::UTF16String filename_utf16 = il::toUtf16(filename);
-  file_ = _wfopen(filename_utf16.asWString(), L"r+b");
+  file_ = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
   if (!file_) {
     status.SetError(il::Error::FilesystemFileNotFound);
@@ -977,11 +977,19 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
       checkEndOfLineOrComment(line, il::io, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        std::fclose(file_);
         return root_toml;
       }
     }
   }
 
+  if (std::ferror(file_) != 0) {
+    std::fclose(file_);
+    status.SetError(il::Error::FilesystemNoReadAccess);
+    IL_SET_SOURCE(status);
+    return root_toml;
+  }
+
   const int error = std::fclose(file_);
   if (error != 0) {
     status.SetError(il::Error::FilesystemCanNotCloseFile);
-- 
2.43.0


From fad4c4e22c4f37c7ba639cbe2f32e969b7c34ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 108/156] fix: TOML: numbers

---
 il/io/toml/toml.cpp | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index b33fab9..02275f6 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -17,6 +17,10 @@
 //==============================================================================
 
 #include <il/container/string/algorithmString.h>
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
+
 #include <il/io/toml/toml.h>
 
 namespace il {
@@ -79,7 +83,12 @@ il::String TomlParser::currentLine() const {
 
 il::Type TomlParser::parseType(il::StringView string, il::io_t,
                                il::Status& status) {
-  if (string[0] == '"' || string[0] == '\'') {
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseCanNotDetermineType);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return il::Type::Void;
+  } else if (string[0] == '"' || string[0] == '\'') {
     status.SetOk();
     return il::Type::UnicodeString;
   } else if (string.startsWithDigit() || string[0] == '-' || string[0] == '+') {
@@ -87,14 +96,11 @@ il::Type TomlParser::parseType(il::StringView string, il::io_t,
     if (string[0] == '-' || string[0] == '+') {
       ++i;
     }
-    while (i < string.size() && string.hasDigit(i)) {
+    while (i < string.size() && (string.hasDigit(i) || string[i] == '_')) {
       ++i;
     }
-    if (i < string.size() && string[i] == '.') {
-      ++i;
-      while (i < string.size() && string.hasDigit(i)) {
-        ++i;
-      }
+    if (i < string.size() &&
+        (string[i] == '.' || string[i] == 'e' || string[i] == 'E')) {
       status.SetOk();
       return il::Type::Double;
     } else {
@@ -148,8 +154,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
 
   // Check that there is no leading 0
   if (i + 1 < string.size() && string[i] == '0' &&
-      !(string[i + 1] == '.' || string[i + 1] == ' ' ||
-        string.hasNewLine(i + 1))) {
+      (string.hasDigit(i + 1) || string[i + 1] == '_')) {
     status.SetError(il::Error::ParseNumber);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
@@ -162,7 +167,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
     ++i;
     if (i < string.size() && string[i] == '_') {
       ++i;
-      if (i == string.size() || (!string.hasDigit(i + 1))) {
+      if (i == string.size() || (!string.hasDigit(i))) {
         status.SetError(il::Error::ParseNumber);
         IL_SET_SOURCE(status);
         status.SetInfo("line", line_number_);
@@ -245,18 +250,25 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
       number.Append(string[j]);
     }
   }
-  il::StringView view{il::StringType::Byte, number.data(), i};
 
   if (is_float) {
     status.SetOk();
     string.removePrefix(i);
-    double x = std::atof(view.asCString());
+    double x = std::atof(number.asCString());
     return il::Dynamic{x};
   } else {
+    errno = 0;
+    const long long int n = std::strtoll(number.asCString(), nullptr, 10);
+    if (errno == ERANGE || n < std::numeric_limits<il::int_t>::min() ||
+        n > std::numeric_limits<il::int_t>::max()) {
+      status.SetError(il::Error::ParseIntegerOverflow);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return il::Dynamic{};
+    }
     status.SetOk();
     string.removePrefix(i);
-    il::int_t n = std::atoll(view.asCString());
-    return il::Dynamic{n};
+    return il::Dynamic{static_cast<il::int_t>(n)};
   }
 }
 
-- 
2.43.0


From 68f12f4d1469b0803db6d0bb36d41eeefbf059b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 109/156] fix: TOML: strings and quoted keys

---
 il/io/toml/toml.cpp | 142 +++++++++++++++++++++++++++++---------------
 il/io/toml/toml.h   |   3 +
 2 files changed, 96 insertions(+), 49 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 02275f6..d1feb57 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -63,6 +63,53 @@ il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
   return string;
 }
 
+il::String TomlParser::toString(const il::Array<char>& bytes, il::io_t,
+                                il::Status& status) const {
+  il::StringType type = il::StringType::Ascii;
+  il::int_t i = 0;
+  while (i < bytes.size()) {
+    const unsigned char c = static_cast<unsigned char>(bytes[i]);
+    il::int_t n = 0;
+    unsigned int rune = 0;
+    unsigned int rune_min = 0;
+    if (c < 0x80u) {
+      n = 1;
+      rune = c;
+    } else if ((c & 0xE0u) == 0xC0u) {
+      n = 2;
+      rune = c & 0x1Fu;
+      rune_min = 0x80u;
+    } else if ((c & 0xF0u) == 0xE0u) {
+      n = 3;
+      rune = c & 0x0Fu;
+      rune_min = 0x800u;
+    } else if ((c & 0xF8u) == 0xF0u) {
+      n = 4;
+      rune = c & 0x07u;
+      rune_min = 0x10000u;
+    }
+    bool valid = (n > 0 && i + n <= bytes.size());
+    for (il::int_t k = 1; valid && k < n; ++k) {
+      const unsigned char d = static_cast<unsigned char>(bytes[i + k]);
+      valid = ((d & 0xC0u) == 0x80u);
+      rune = (rune << 6) + (d & 0x3Fu);
+    }
+    if (!valid || rune < rune_min || !il::isRune(static_cast<int>(rune))) {
+      status.SetError(il::Error::ParseString);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return il::String{};
+    }
+    if (n > 1) {
+      type = il::StringType::Utf8;
+    }
+    i += n;
+  }
+
+  status.SetOk();
+  return il::String{type, bytes.data(), bytes.size()};
+}
+
 bool TomlParser::containsDigit(char c) { return c >= '0' && c <= '9'; }
 
 void TomlParser::checkEndOfLineOrComment(il::StringView string, il::io_t,
@@ -292,33 +339,34 @@ il::Dynamic TomlParser::parseString(il::io_t, il::StringView& string,
 il::String TomlParser::parseStringLiteral(char delimiter, il::io_t,
                                           il::StringView& string,
                                           il::Status& status) {
-  il::String ans{};
+  il::Array<char> bytes{};
 
   string.removePrefix(1);
-  while (!string.isEmpty()) {
+  while (!string.isEmpty() && !string.startsWithNewLine()) {
     if (delimiter == '"' && string[0] == '\\') {
       il::Status parse_status{};
-      ans.Append(parseEscapeCode(il::io, string, parse_status));
+      const il::String escaped = parseEscapeCode(il::io, string, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
-        return ans;
+        return il::String{};
+      }
+      for (il::int_t i = 0; i < escaped.size(); ++i) {
+        bytes.Append(escaped.data()[i]);
       }
     } else if (string[0] == delimiter) {
       string.removePrefix(1);
       string = il::removeWhitespaceLeft(string);
-      status.SetOk();
-      return ans;
+      return toString(bytes, il::io, status);
     } else {
-      // TODO: I am not sure what will happen with a Unicode string
-      ans.Append(string.rune(0));
-      string.removePrefix(string.nextRune(0));
+      bytes.Append(string[0]);
+      string.removePrefix(1);
     }
   }
 
   status.SetError(il::Error::ParseString);
   IL_SET_SOURCE(status);
   status.SetInfo("line", line_number_);
-  return ans;
+  return il::String{};
 }
 
 il::String TomlParser::parseEscapeCode(il::io_t, il::StringView& string,
@@ -359,9 +407,33 @@ il::String TomlParser::parseEscapeCode(il::io_t, il::StringView& string,
       break;
     case 'u':
     case 'U': {
-      status.SetError(il::Error::ParseString);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
+      // \uXXXX or \UXXXXXXXX
+      const il::int_t nb_digits = (string[i] == 'u') ? 4 : 8;
+      unsigned int rune = 0;
+      bool valid = (i + nb_digits < string.size());
+      for (il::int_t k = i + 1; valid && k <= i + nb_digits; ++k) {
+        const char c = string[k];
+        unsigned int digit = 0;
+        if (c >= '0' && c <= '9') {
+          digit = static_cast<unsigned int>(c - '0');
+        } else if (c >= 'a' && c <= 'f') {
+          digit = static_cast<unsigned int>(c - 'a') + 10;
+        } else if (c >= 'A' && c <= 'F') {
+          digit = static_cast<unsigned int>(c - 'A') + 10;
+        } else {
+          valid = false;
+        }
+        rune = 16 * rune + digit;
+      }
+      if (!valid || !il::isRune(static_cast<int>(rune))) {
+        status.SetError(il::Error::ParseString);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return ans;
+      }
+      string.removePrefix(2 + nb_digits);
+      ans.Append(static_cast<int>(rune));
+      status.SetOk();
       return ans;
     } break;
     default:
@@ -612,45 +684,17 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
 
   il::String key{};
   string = il::removeWhitespaceLeft(string);
-  IL_EXPECT_FAST(string.size() > 0);
 
-  il::Status parse_status{};
-  if (string[0] == '"') {
-    //////////////////////////
-    // We have a key in a ".."
-    //////////////////////////
-    string.removePrefix(1);
-    while (string.size() > 0) {
-      if (string[0] == '\\') {
-        il::Status parse_status{};
-        key.Append(parseEscapeCode(il::io, string, parse_status));
-        if (!parse_status.Ok()) {
-          status = std::move(parse_status);
-          return key;
-        }
-      } else if (string[0] == '"') {
-        string.removePrefix(1);
-        string = il::removeWhitespaceLeft(string);
-        status.SetOk();
-        return key;
-      } else {
-        // Check what's going on with unicode
-        key.Append(string[0]);
-        string.removePrefix(1);
-      }
-    }
-    status.SetError(il::Error::ParseString);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-    return key;
+  if (!string.isEmpty() && (string[0] == '"' || string[0] == '\'')) {
+    //////////////////////////////////
+    // We have a key in a ".." or '..'
+    //////////////////////////////////
+    return parseStringLiteral(string[0], il::io, string, status);
   } else {
-    /////////////////////////////////////
-    // We have a bare key: '..' or ->..<-
-    /////////////////////////////////////
+    //////////////////////
+    // We have a bare key
+    //////////////////////
     // Search for the end of the key and move back to drop the whitespaces
-    if (string[0] == '\'') {
-      string.removePrefix(1);
-    }
     il::int_t j = 0;
     if (end != '@') {
       while (j < string.size() && (string[j] != end)) {
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index bb6d5c8..2f8aac6 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -84,6 +84,9 @@ class TomlParser {
 
  private:
   static bool containsDigit(char c);
+  // Makes a string out of UTF-8 bytes. Sets an error if they are not UTF-8
+  il::String toString(const il::Array<char> &bytes, il::io_t,
+                      il::Status &status) const;
   // Reads a full line, including the '\n' at its end. Returns false if the end of
   // the file has been reached.
   bool readLine(il::io_t, il::StringView &string);
-- 
2.43.0


From 6a15c133bd99f43caf3602cd107fa162a0345e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 110/156] fix: TOML: arrays of inline tables, nested arrays on
 several lines, empty inline tables

---
 il/io/toml/toml.cpp | 47 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index d1feb57..4f5a6fd 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -505,6 +505,16 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
       status.SetOk();
       return ans;
     }
+    case il::Type::MapArrayStringToDynamic: {
+      ans = parseObjectArray(il::Type::MapArrayStringToDynamic, '{', il::io,
+                             string, parse_status);
+      if (!parse_status.Ok()) {
+        status = std::move(parse_status);
+        return ans;
+      }
+      status.SetOk();
+      return ans;
+    }
     default:
       il::abort();
       return ans;
@@ -552,9 +562,13 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
     }
   }
 
-  if (!string.isEmpty()) {
-    string.removePrefix(1);
+  if (string.isEmpty() || (string[0] != ']')) {
+    status.SetError(il::Error::ParseArray);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return ans;
   }
+  string.removePrefix(1);
 
   status.SetOk();
   return ans;
@@ -582,15 +596,27 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
         return ans;
       }
     } else {
-      il::abort();
+      array.Append(parseInlineTable(il::io, string, parse_status));
+      if (!parse_status.Ok()) {
+        status = std::move(parse_status);
+        return ans;
+      }
     }
 
-    string = il::removeWhitespaceLeft(string);
-    if (string.isEmpty() || (string[0] != ',')) {
+    string = skipWhitespaceAndComments(string, il::io, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return ans;
+    }
+    if (string[0] != ',') {
       break;
     }
     string.removePrefix(1);
-    string = il::removeWhitespaceLeft(string);
+    string = skipWhitespaceAndComments(string, il::io, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return ans;
+    }
   }
 
   if (string.isEmpty() || (string[0] != ']')) {
@@ -607,15 +633,20 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
 il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
                                          il::Status& status) {
   il::Dynamic ans = il::Dynamic{il::MapArray<il::String, il::Dynamic>{}};
+  bool is_first = true;
   do {
     string.removePrefix(1);
+    string = il::removeWhitespaceLeft(string);
     if (string.isEmpty()) {
       status.SetError(il::Error::ParseTable);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return ans;
     }
-    string = il::removeWhitespaceLeft(string);
+    if (is_first && string[0] == '}') {
+      break;
+    }
+    is_first = false;
     il::Status parse_status{};
     parseKeyValue(il::io, string,
                   ans.As<il::MapArray<il::String, il::Dynamic>>(),
@@ -625,7 +656,7 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
-  } while (string[0] == ',');
+  } while (!string.isEmpty() && string[0] == ',');
 
   if (string.isEmpty() || (string[0] != '}')) {
     status.SetError(il::Error::ParseTable);
-- 
2.43.0


From 2dc5918514b582656b275b94c8254b02d317b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 111/156] fix: TOML: bound the depth of nested arrays and
 tables

---
 il/io/toml/toml.cpp | 46 ++++++++++++++++++++++++++++++++++++++++++++-
 il/io/toml/toml.h   |  3 +++
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 4f5a6fd..a002ae9 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -25,7 +25,21 @@
 
 namespace il {
 
-TomlParser::TomlParser() : line_{}, line_number_{0}, file_{nullptr} {}
+namespace {
+
+// Keeps track of the number of nested arrays and tables
+class Nested {
+ private:
+  il::int_t& depth_;
+
+ public:
+  explicit Nested(il::int_t& depth) : depth_(depth) { ++depth_; }
+  ~Nested() { --depth_; }
+};
+
+}  // namespace
+
+TomlParser::TomlParser() : depth_{0}, line_{}, line_number_{0}, file_{nullptr} {}
 
 bool TomlParser::readLine(il::io_t, il::StringView& string) {
   line_.Resize(0);
@@ -454,6 +468,13 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
   IL_EXPECT_FAST(!string.isEmpty() && string[0] == '[');
 
   il::Dynamic ans{il::Array<il::Dynamic>{}};
+  Nested nested{depth_};
+  if (depth_ > max_depth_) {
+    status.SetError(il::Error::ParseArray);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return ans;
+  }
   il::Status parse_status{};
 
   string.removePrefix(1);
@@ -633,6 +654,13 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
 il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
                                          il::Status& status) {
   il::Dynamic ans = il::Dynamic{il::MapArray<il::String, il::Dynamic>{}};
+  Nested nested{depth_};
+  if (depth_ > max_depth_) {
+    status.SetError(il::Error::ParseTable);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return ans;
+  }
   bool is_first = true;
   do {
     string.removePrefix(1);
@@ -859,7 +887,15 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
 
   il::String full_table_name{};
   bool inserted = false;
+  il::int_t depth = 0;
   while (!string.isEmpty() && (string[0] != ']')) {
+    ++depth;
+    if (depth > max_depth_) {
+      status.SetError(il::Error::ParseTable);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return;
+    }
     il::Status parse_status{};
     il::String table_name = parseKey('@', il::io, string, parse_status);
     if (!parse_status.Ok()) {
@@ -941,7 +977,15 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
   }
 
   il::String full_table_name{};
+  il::int_t depth = 0;
   while (!string.isEmpty() && (string[0] != ']')) {
+    ++depth;
+    if (depth > max_depth_) {
+      status.SetError(il::Error::ParseTable);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return;
+    }
     il::Status parse_status{};
     il::String table_name = parseKey('@', il::io, string, parse_status);
     if (!parse_status.Ok()) {
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 2f8aac6..4f3adcf 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -38,6 +38,9 @@ namespace il {
 
 class TomlParser {
  private:
+  // The arrays and the tables can't be nested more deeply
+  static const il::int_t max_depth_ = 128;
+  il::int_t depth_;
   il::Array<char> line_;
   il::int_t line_number_;
   std::FILE *file_;
-- 
2.43.0


From 821d102301796f76acb12795750b3b67a88972e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 112/156] fix: TOML: names of tables

---
 il/io/toml/toml.cpp | 81 +++++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index a002ae9..bf86f10 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -883,10 +883,12 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
+    return;
   }
 
   il::String full_table_name{};
   bool inserted = false;
+  bool is_closed = false;
   il::int_t depth = 0;
   while (!string.isEmpty() && (string[0] != ']')) {
     ++depth;
@@ -902,12 +904,6 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
       status = std::move(parse_status);
       return;
     }
-    if (table_name.isEmpty()) {
-      status.SetError(il::Error::ParseTable);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
-      return;
-    }
     if (!full_table_name.isEmpty()) {
       full_table_name.Append('.');
     }
@@ -948,21 +944,28 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
     }
 
     string = il::removeWhitespaceLeft(string);
-    while (!string.isEmpty() && string[0] == '.') {
+    if (!string.isEmpty() && string[0] == '.') {
       string.removePrefix(1);
+      string = il::removeWhitespaceLeft(string);
+      is_closed = false;
+    } else {
+      is_closed = true;
+      break;
     }
-    string = il::removeWhitespaceLeft(string);
   }
 
   // TODO: One should check the redefinition of a table (line 1680)
   IL_UNUSED(inserted);
 
+  if (!is_closed || string.isEmpty() || (string[0] != ']')) {
+    status.SetError(il::Error::ParseTable);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return;
+  }
   string.removePrefix(1);
   string = il::removeWhitespaceLeft(string);
-  if (!string.isEmpty() && (string[0] != '\n') && (string[0] != '#')) {
-    il::abort();
-  }
-  status.SetOk();
+  checkEndOfLineOrComment(string, il::io, status);
 }
 
 void TomlParser::parseTableArray(il::io_t, il::StringView& string,
@@ -977,6 +980,7 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
   }
 
   il::String full_table_name{};
+  bool is_closed = false;
   il::int_t depth = 0;
   while (!string.isEmpty() && (string[0] != ']')) {
     ++depth;
@@ -992,12 +996,6 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
       status = std::move(parse_status);
       return;
     }
-    if (table_name.isEmpty()) {
-      status.SetError(il::Error::ParseTable);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
-      return;
-    }
     if (!full_table_name.isEmpty()) {
       full_table_name.Append('.');
     }
@@ -1007,16 +1005,26 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
     il::spot_t i = toml->search(table_name);
     if (toml->found(i)) {
       il::Dynamic& b = toml->Value(i);
-      if (!string.isEmpty() && string[0] == ']') {
-        if (!b.is<il::Array<il::Dynamic>>()) {
-          status.SetError(il::Error::ParseTable);
-          IL_SET_SOURCE(status);
-          status.SetInfo("line", line_number_);
-          return;
-        }
+      const bool is_table_array =
+          b.is<il::Array<il::Dynamic>>() &&
+          b.as<il::Array<il::Dynamic>>().size() > 0 &&
+          b.as<il::Array<il::Dynamic>>()
+              .back()
+              .is<il::MapArray<il::String, il::Dynamic>>();
+      if (is_table_array) {
         il::Array<il::Dynamic>& v = b.As<il::Array<il::Dynamic>>();
-        v.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
+        if (!string.isEmpty() && string[0] == ']') {
+          v.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
+        }
         toml = &(v.Back().As<il::MapArray<il::String, il::Dynamic>>());
+      } else if (b.is<il::MapArray<il::String, il::Dynamic>>() &&
+                 !string.isEmpty() && string[0] == '.') {
+        toml = &(b.As<il::MapArray<il::String, il::Dynamic>>());
+      } else {
+        status.SetError(il::Error::ParseTable);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return;
       }
     } else {
       if (!string.isEmpty() && string[0] == ']') {
@@ -1033,22 +1041,25 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
         toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
       }
     }
-  }
 
-  if (string.isEmpty()) {
-    status.SetError(il::Error::ParseTable);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-    return;
+    if (!string.isEmpty() && string[0] == '.') {
+      string.removePrefix(1);
+      string = il::removeWhitespaceLeft(string);
+      is_closed = false;
+    } else {
+      is_closed = true;
+      break;
+    }
   }
-  string.removePrefix(1);
-  if (string.isEmpty()) {
+
+  if (!is_closed || string.size() < 2 || string[0] != ']' ||
+      string[1] != ']') {
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
     return;
   }
-  string.removePrefix(1);
+  string.removePrefix(2);
 
   string = il::removeWhitespaceLeft(string);
   il::Status parse_status{};
-- 
2.43.0


From 94201e7239b1965af9981ee26e0d8462aed70bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 113/156] fix: TOML: save values that load back

---
 il/io/toml/toml.h | 457 ++++++++++++++++++++++++----------------------
 1 file changed, 241 insertions(+), 216 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 4f3adcf..33d0398 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -95,227 +95,282 @@ class TomlParser {
   bool readLine(il::io_t, il::StringView &string);
 };
 
+// Writes a string in between quotes, with the escape codes it needs
+inline void save_string(const il::String &string, il::io_t, std::FILE *file) {
+  std::fputc('"', file);
+  const char *data = string.data();
+  for (il::int_t i = 0; i < string.size(); ++i) {
+    const unsigned char c = static_cast<unsigned char>(data[i]);
+    switch (c) {
+      case '\b':
+        std::fputs("\\b", file);
+        break;
+      case '\t':
+        std::fputs("\\t", file);
+        break;
+      case '\n':
+        std::fputs("\\n", file);
+        break;
+      case '\f':
+        std::fputs("\\f", file);
+        break;
+      case '\r':
+        std::fputs("\\r", file);
+        break;
+      case '"':
+        std::fputs("\\\"", file);
+        break;
+      case '\\':
+        std::fputs("\\\\", file);
+        break;
+      default:
+        if (c < 0x20 || c == 0x7F) {
+          std::fprintf(file, "\\u%04X", static_cast<unsigned int>(c));
+        } else {
+          std::fputc(c, file);
+        }
+    }
+  }
+  std::fputc('"', file);
+}
+
+inline bool is_bare_key(const il::String &key) {
+  for (il::int_t i = 0; i < key.size(); ++i) {
+    const char c = key.data()[i];
+    if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+          (c >= '0' && c <= '9') || c == '_' || c == '-')) {
+      return false;
+    }
+  }
+  return key.size() > 0;
+}
+
+inline void save_key(const il::String &key, il::io_t, std::FILE *file) {
+  if (is_bare_key(key)) {
+    std::fputs(key.asCString(), file);
+  } else {
+    save_string(key, il::io, file);
+  }
+}
+
+// The 17 digits are needed to get back the same number
+inline void save_double(double x, il::io_t, std::FILE *file) {
+  std::fprintf(file, "%.16e", x);
+}
+
+inline void save_value(const il::Dynamic &value, il::io_t, std::FILE *file,
+                       il::Status &status);
+
+template <typename M>
+inline void save_inline_table(const M &table, il::io_t, std::FILE *file,
+                              il::Status &status) {
+  std::fputs("{ ", file);
+  bool is_first = true;
+  for (il::spot_t i = table.spotBegin(); i != table.spotEnd();
+       i = table.next(i)) {
+    if (!is_first) {
+      std::fputs(", ", file);
+    }
+    is_first = false;
+    save_key(table.key(i), il::io, file);
+    std::fputs(" = ", file);
+    save_value(table.value(i), il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+  }
+  std::fputs(" }", file);
+  status.SetOk();
+}
+
 inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
                        std::FILE *file, il::Status &status) {
-  const int error0 = std::fputs("[ ", file);
-  IL_UNUSED(error0);
+  std::fputs("[ ", file);
   for (il::int_t j = 0; j < array.size(); ++j) {
     if (j > 0) {
-      const int error1 = std::fputs(", ", file);
-      IL_UNUSED(error1);
+      std::fputs(", ", file);
     }
-    switch (array[j].type()) {
-      case il::Type::Bool: {
-        if (array[j].to<bool>()) {
-          const int error2 = std::fputs("true", file);
-          IL_UNUSED(error2);
-        } else {
-          const int error2 = std::fputs("false", file);
-          IL_UNUSED(error2);
+    save_value(array[j], il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+  }
+  std::fputs(" ]", file);
+  status.SetOk();
+}
+
+inline void save_value(const il::Dynamic &value, il::io_t, std::FILE *file,
+                       il::Status &status) {
+  switch (value.type()) {
+    case il::Type::Bool:
+      std::fputs(value.to<bool>() ? "true" : "false", file);
+      break;
+    case il::Type::Integer:
+      std::fprintf(file, "%td", value.to<il::int_t>());
+      break;
+    case il::Type::Double:
+      save_double(value.to<double>(), il::io, file);
+      break;
+    case il::Type::UnicodeString:
+      save_string(value.as<il::String>(), il::io, file);
+      break;
+    case il::Type::ArrayOfDouble: {
+      const il::Array<double> &v = value.as<il::Array<double>>();
+      std::fputs("[ ", file);
+      for (il::int_t i = 0; i < v.size(); ++i) {
+        if (i > 0) {
+          std::fputs(", ", file);
         }
-      } break;
-      case il::Type::Integer: {
-        const int error2 = std::fprintf(file, "%td", array[j].to<il::int_t>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::Double: {
-        const int error2 = std::fprintf(file, "%e", array[j].to<double>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::UnicodeString: {
-        const int error2 = std::fputs("\"", file);
-        const int error3 =
-            std::fputs(array[j].as<il::String>().asCString(), file);
-        const int error4 = std::fputs("\"", file);
-        IL_UNUSED(error2);
-        IL_UNUSED(error3);
-        IL_UNUSED(error4);
-      } break;
-      case il::Type::ArrayOfDynamic: {
-        save_array(array[j].as<il::Array<il::Dynamic>>(), il::io, file, status);
-        if (!status.Ok()) {
-          status.Rearm();
-          return;
+        save_double(v[i], il::io, file);
+      }
+      std::fputs(" ]", file);
+    } break;
+    case il::Type::Array2DOfDouble: {
+      const il::Array2D<double> &v = value.as<il::Array2D<double>>();
+      std::fputs("[ ", file);
+      for (il::int_t i = 0; i < v.size(0); ++i) {
+        if (i > 0) {
+          std::fputs(", ", file);
         }
-      } break;
-      default:
-        IL_UNREACHABLE;
-    }
+        std::fputs("[ ", file);
+        for (il::int_t j = 0; j < v.size(1); ++j) {
+          if (j > 0) {
+            std::fputs(", ", file);
+          }
+          save_double(v(i, j), il::io, file);
+        }
+        std::fputs(" ]", file);
+      }
+      std::fputs(" ]", file);
+    } break;
+    case il::Type::ArrayOfDynamic:
+      save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
+      return;
+    case il::Type::MapArrayStringToDynamic:
+      save_inline_table(value.as<il::MapArray<il::String, il::Dynamic>>(),
+                        il::io, file, status);
+      return;
+    case il::Type::MapStringToDynamic:
+      save_inline_table(value.as<il::Map<il::String, il::Dynamic>>(), il::io,
+                        file, status);
+      return;
+    default:
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
   }
-  const int error5 = std::fputs(" ]", file);
-  IL_UNUSED(error5);
   status.SetOk();
 }
 
-template <typename M>
-inline void save_aux(const M &toml, const il::String &name, il::io_t,
-                     std::FILE *file, il::Status &status) {
-  int error = 0;
-  // Add an object that sets the error on destruction
+// The names of the tables which lead to the current one. The path is empty for
+// the root of the document.
+inline void save_path(const il::Array<const il::String *> &path, il::io_t,
+                      std::FILE *file) {
+  for (il::int_t i = 0; i < path.size(); ++i) {
+    if (i > 0) {
+      std::fputc('.', file);
+    }
+    save_key(*path[i], il::io, file);
+  }
+}
 
+template <typename M>
+inline void save_aux(const M &toml, il::io_t,
+                     il::Array<const il::String *> &path, std::FILE *file,
+                     il::Status &status) {
+  // The values have to be written before the tables, as what comes after the
+  // name of a table belongs to that table
   for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
     const il::Dynamic &value = toml.value(i);
-    const il::Type type = value.type();
-    if (type != il::Type::MapArrayStringToDynamic &&
-        type != il::Type::MapStringToDynamic) {
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs(" = ", file);
-      if (error == EOF) return;
-      switch (type) {
-        case il::Type::Bool:
-          if (value.to<bool>()) {
-            error = std::fputs("true", file);
-          } else {
-            error = std::fputs("false", file);
-          }
-          if (error == EOF) return;
-          break;
-        case il::Type::Integer:
-          error = std::fprintf(file, "%td", value.to<il::int_t>());
-          if (error == EOF) return;
-          break;
-        case il::Type::Double:
-          error = std::fprintf(file, "%e", value.to<double>());
-          if (error == EOF) return;
-          break;
-        case il::Type::UnicodeString:
-          error = std::fputs("\"", file);
-          if (error == EOF) return;
-          error = std::fputs(value.as<il::String>().asCString(), file);
-          if (error == EOF) return;
-          error = std::fputs("\"", file);
-          if (error == EOF) return;
-          break;
-        case il::Type::ArrayOfDouble: {
-          const il::Array<double> &v = value.as<il::Array<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
-          for (il::int_t i = 0; i < v.size(); ++i) {
-            std::fprintf(file, "%e", v[i]);
-            if (i + 1 < v.size()) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
-            }
-          }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
-        } break;
-        case il::Type::Array2DOfDouble: {
-          const il::Array2D<double> &v = value.as<il::Array2D<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
-          for (il::int_t i = 0; i < v.size(0); ++i) {
-            error = std::fputs("[ ", file);
-            if (error == EOF) return;
-            for (il::int_t j = 0; j < v.size(1); ++j) {
-              std::fprintf(file, "%e", v(i, j));
-              if (j + 1 < v.size(1)) {
-                error = std::fputs(", ", file);
-                if (error == EOF) return;
-              }
-            }
-            error = std::fputs(" ]", file);
-            if (error == EOF) return;
-            if (i + 1 < v.size(0)) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
-            }
-          }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
-        } break;
-        case il::Type::ArrayOfDynamic: {
-          save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
-          status.AbortOnError();
-        } break;
-        default:
-          IL_UNREACHABLE;
-      }
-      error = std::fputs("\n", file);
-      if (error == EOF) return;
-    } else if (type == il::Type::MapArrayStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
-      if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
-      }
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
-      save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), toml.key(i),
-               il::io, file, status);
+    if (value.type() != il::Type::MapArrayStringToDynamic &&
+        value.type() != il::Type::MapStringToDynamic) {
+      save_key(toml.key(i), il::io, file);
+      std::fputs(" = ", file);
+      save_value(value, il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
         return;
       }
-    } else if (type == il::Type::MapStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
-      if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
+      std::fputc('\n', file);
+    }
+  }
+
+  for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
+    const il::Dynamic &value = toml.value(i);
+    if (value.type() == il::Type::MapArrayStringToDynamic ||
+        value.type() == il::Type::MapStringToDynamic) {
+      path.Append(&toml.key(i));
+      std::fputs("\n[", file);
+      save_path(path, il::io, file);
+      std::fputs("]\n", file);
+      if (value.type() == il::Type::MapArrayStringToDynamic) {
+        save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), il::io,
+                 path, file, status);
+      } else {
+        save_aux(value.as<il::Map<il::String, il::Dynamic>>(), il::io, path,
+                 file, status);
       }
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
-      save_aux(value.as<il::Map<il::String, il::Dynamic>>(), toml.key(i),
-               il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
         return;
       }
+      path.Resize(path.size() - 1);
     }
   }
 
   status.SetOk();
-  return;
 }
 
-template <>
-class SaveHelper<il::Map<il::String, il::Dynamic>> {
- public:
-  static void save(const il::Map<il::String, il::Dynamic> &toml,
-                   const il::String &filename, il::io_t, il::Status &status) {
+template <typename M>
+inline void save_toml(const M &toml, const il::String &filename, il::io_t,
+                      il::Status &status) {
 #ifdef IL_UNIX
-    std::FILE *file = std::fopen(filename.asCString(), "wb");
-    if (!file) {
-      status.SetError(il::Error::FilesystemFileNotFound);
-      return;
-    }
+  std::FILE *file = std::fopen(filename.asCString(), "wb");
+  if (!file) {
+    status.SetError(il::Error::FilesystemFileNotFound);
+    return;
+  }
 #else
-    il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE *file;
-    errno_t error_nb = _wfopen_s(&file, filename_utf16.asWString(), L"wb");
-    if (error_nb != 0) {
-      status.SetError(il::Error::FilesystemFileNotFound);
-      return;
-    }
+  il::UTF16String filename_utf16 = il::toUtf16(filename);
+  std::FILE *file;
+  errno_t error_nb = _wfopen_s(&file, filename_utf16.asWString(), L"wb");
+  if (error_nb != 0) {
+    status.SetError(il::Error::FilesystemFileNotFound);
+    return;
+  }
 #endif
 
-    il::String root_name{};
-    save_aux(toml, root_name, il::io, file, status);
-    if (!status.Ok()) {
-      status.Rearm();
-      return;
-    }
-
-    const int error = std::fclose(file);
-    if (error != 0) {
-      status.SetError(il::Error::FilesystemCanNotCloseFile);
-      return;
-    }
+  il::Array<const il::String *> path{};
+  save_aux(toml, il::io, path, file, status);
+  if (!status.Ok()) {
+    status.Rearm();
+    std::fclose(file);
+    return;
+  }
 
-    status.SetOk();
+  const bool write_error = (std::ferror(file) != 0);
+  const int error = std::fclose(file);
+  if (write_error) {
+    status.SetError(il::Error::FilesystemCanNotWriteToFile);
     return;
   }
+  if (error != 0) {
+    status.SetError(il::Error::FilesystemCanNotCloseFile);
+    return;
+  }
+
+  status.SetOk();
+}
+
+template <>
+class SaveHelperToml<il::Map<il::String, il::Dynamic>> {
+ public:
+  static void save(const il::Map<il::String, il::Dynamic> &toml,
+                   const il::String &filename, il::io_t, il::Status &status) {
+    save_toml(toml, filename, il::io, status);
+  }
 };
 
 template <>
@@ -323,37 +378,7 @@ class SaveHelperToml<il::MapArray<il::String, il::Dynamic>> {
  public:
   static void save(const il::MapArray<il::String, il::Dynamic> &toml,
                    const il::String &filename, il::io_t, il::Status &status) {
-#ifdef IL_UNIX
-    std::FILE *file = std::fopen(filename.asCString(), "wb");
-    if (!file) {
-      status.SetError(il::Error::FilesystemFileNotFound);
-      return;
-    }
-#else
-    il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE *file;
-    errno_t error_nb = _wfopen_s(&file, filename_utf16.asWString(), L"wb");
-    if (error_nb != 0) {
-      status.SetError(il::Error::FilesystemFileNotFound);
-      return;
-    }
-#endif
-
-    il::String root_name{};
-    save_aux(toml, root_name, il::io, file, status);
-    if (!status.Ok()) {
-      status.Rearm();
-      return;
-    }
-
-    const int error = std::fclose(file);
-    if (error != 0) {
-      status.SetError(il::Error::FilesystemCanNotCloseFile);
-      return;
-    }
-
-    status.SetOk();
-    return;
+    save_toml(toml, filename, il::io, status);
   }
 };
 
-- 
2.43.0


From 44def139a7a90fae01ad944c090bcee2fb219c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 114/156] fix: TOML: set the error before its source

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index bf86f10..e5fd061 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -65,8 +65,8 @@ il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
     if (!readLine(il::io, string)) {
-      IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
+      IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
     }
@@ -130,8 +130,8 @@ void TomlParser::checkEndOfLineOrComment(il::StringView string, il::io_t,
                                          il::Status& status) {
   if (!string.isEmpty() && (!string.startsWithNewLine()) &&
       (string[0] != '#')) {
-    IL_SET_SOURCE(status);
     status.SetError(il::Error::ParseUnidentifiedTrailingCharacter);
+    IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
   } else {
     status.SetOk();
-- 
2.43.0


From 61fe63c09fc213f81be9497265d14d36fed44f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 115/156] fix: numpy: check the header

---
 il/io/numpy/numpy.cpp | 77 +++++++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 17 deletions(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index bfa155d..48d3c74 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -16,6 +16,8 @@
 //
 //==============================================================================
 
+#include <limits>
+
 #include <il/io/numpy/numpy.h>
 
 #include <il/String.h>
@@ -23,6 +25,31 @@
 
 namespace il {
 
+namespace {
+
+// Reads a number, with the spaces around it, at the beginning of the string and
+// moves the string after it. Returns false if there is no such number.
+bool parseDimension(il::io_t, il::StringView& string, il::int_t& n) {
+  const il::int_t n_max = std::numeric_limits<il::int_t>::max();
+
+  string.trimPrefix();
+  bool valid = !string.isEmpty() && string.startsWithDigit();
+  n = 0;
+  while (valid && !string.isEmpty() && string.startsWithDigit()) {
+    const il::int_t digit = static_cast<il::int_t>(string[0] - '0');
+    if (n > (n_max - digit) / 10) {
+      valid = false;
+    } else {
+      n = 10 * n + digit;
+      string.removePrefix(1);
+    }
+  }
+  string.trimPrefix();
+  return valid;
+}
+
+}  // namespace
+
 NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   NumpyInfo numpy_info;
 
@@ -50,8 +77,9 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   }
   char major_version = buffer[6];
   char minor_version = buffer[7];
-  unsigned short header_length =
-      *reinterpret_cast<unsigned short*>(first_buffer + 8);
+  const il::int_t header_length =
+      static_cast<il::int_t>(static_cast<unsigned char>(first_buffer[8])) +
+      256 * static_cast<il::int_t>(static_cast<unsigned char>(first_buffer[9]));
   if (major_version != 1 || minor_version != 0) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
@@ -63,8 +91,12 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   il::Array<char> second_buffer{header_length + 1};
   StringView header =
       StringView{il::StringType::Byte, second_buffer.Data(), header_length + 1};
-  char* success = fgets(second_buffer.Data(), header_length + 1, fp);
-  if (success == nullptr || !(header[header.size() - 2] == '\n')) {
+  second_buffer[header_length] = '\0';
+  const std::size_t header_read =
+      fread(second_buffer.Data(), sizeof(char),
+            static_cast<std::size_t>(header_length), fp);
+  if (static_cast<il::int_t>(header_read) != header_length ||
+      header_length == 0 || !(header[header_length - 1] == '\n')) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
@@ -87,6 +119,11 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   StringView type_string = header.subview(i4 + 10, header.size());
   const il::int_t i5 = il::search("'", type_string);
+  if (i5 == -1) {
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    IL_SET_SOURCE(status);
+    return numpy_info;
+  }
   numpy_info.type = il::String{il::StringType::Byte, type_string.data(), i5};
 
   // Read the ordering for multidimensional arrays
@@ -100,6 +137,11 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   StringView fortran_order_string = header.subview(i0 + 16, i0 + 20);
   numpy_info.fortran_order = (fortran_order_string == "True") ? true : false;
+  if (!numpy_info.fortran_order && !(fortran_order_string == "Fals")) {
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    IL_SET_SOURCE(status);
+    return numpy_info;
+  }
 
   // Read the dimensions
   //
@@ -112,20 +154,21 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   }
   StringView shape_string = header.subview(i1 + 1, i2);
   if (shape_string.back(0) == ',') {
-    numpy_info.shape.Resize(1);
-  } else {
-    const il::int_t n_dim = il::count(',', shape_string) + 1;
-    numpy_info.shape.Resize(n_dim);
-  }
-  il::int_t i = 0;
-  while (true) {
-    numpy_info.shape[i] = std::atoll(shape_string.asCString());
-    if (i == numpy_info.shape.size() - 1) {
-      break;
+    shape_string.removeSuffix(shape_string.size() - 1);
+  }
+  numpy_info.shape.Resize(il::count(',', shape_string) + 1);
+  for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
+    const bool valid = parseDimension(il::io, shape_string, numpy_info.shape[i]);
+    const bool is_last = i == numpy_info.shape.size() - 1;
+    if (!valid || (!is_last && shape_string[0] != ',') ||
+        (is_last && !shape_string.isEmpty())) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return numpy_info;
+    }
+    if (!is_last) {
+      shape_string.removePrefix(1);
     }
-    const il::int_t i3 = il::search(",", shape_string);
-    shape_string = shape_string.subview(i3 + 1, shape_string.size());
-    ++i;
   }
 
   status.SetOk();
-- 
2.43.0


From e35c6c3295e0e7a25a0f82e4aae4694aec5f4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 116/156] fix: numpy: save matrices with padding

---
 il/io/numpy/numpy.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index ca34390..5d75ea6 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -148,10 +148,15 @@ class SaveHelper<il::Array2D<T>> {
       return;
     }
 
-    std::size_t written =
-        std::fwrite(A.data(), sizeof(T),
-                    static_cast<std::size_t>(A.size(0) * A.size(1)), file);
-    if (static_cast<il::int_t>(written) != A.size(0) * A.size(1)) {
+    // The columns might not be contiguous
+    il::int_t written = 0;
+    for (il::int_t j = 0; j < A.size(1); ++j) {
+      written += static_cast<il::int_t>(
+          std::fwrite(A.data() + j * A.stride(1), sizeof(T),
+                      static_cast<std::size_t>(A.size(0)), file));
+    }
+    if (written != A.size(0) * A.size(1)) {
+      std::fclose(file);
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
-- 
2.43.0


From 6085380a897302abf29581275c9196bf20c06dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 117/156] fix: numpy: close the files when there is an error

---
 il/io/numpy/numpy.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 5d75ea6..661e125 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -86,10 +86,7 @@ class SaveHelper<il::Array<T>> {
     il::Status info_status{};
     il::saveNumpyInfo(numpy_info, il::io, file, info_status);
     if (!info_status.Ok()) {
-      const int error = std::fclose(file);
-      if (error != 0) {
-        il::abort();
-      }
+      std::fclose(file);
       status = std::move(info_status);
       return;
     }
@@ -97,6 +94,7 @@ class SaveHelper<il::Array<T>> {
     std::size_t written = std::fwrite(v.data(), sizeof(T),
                                       static_cast<std::size_t>(v.size()), file);
     if (static_cast<il::int_t>(written) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
@@ -140,10 +138,7 @@ class SaveHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::saveNumpyInfo(numpy_info, il::io, file, info_status);
     if (!info_status.Ok()) {
-      const int error = std::fclose(file);
-      if (error != 0) {
-        il::abort();
-      }
+      std::fclose(file);
       status = std::move(info_status);
       return;
     }
@@ -182,10 +177,10 @@ class LoadHelper<il::Array<T>> {
     il::Array<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
@@ -196,15 +191,18 @@ class LoadHelper<il::Array<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 1) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
@@ -213,6 +211,7 @@ class LoadHelper<il::Array<T>> {
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
@@ -238,10 +237,10 @@ class LoadHelper<il::Array2D<T>> {
     il::Array2D<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
@@ -252,19 +251,23 @@ class LoadHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 2) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
     } else if (!numpy_info.fortran_order) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongEndianness);
       IL_SET_SOURCE(status);
       return v;
@@ -274,6 +277,7 @@ class LoadHelper<il::Array2D<T>> {
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
     if (static_cast<il::int_t>(read) != n) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
-- 
2.43.0


From 55579951e5b83946771f07b5e59f148d77b61375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 118/156] fix: numpy: reject the shapes that do not match the
 file

---
 il/io/numpy/numpy.cpp | 34 ++++++++++++++++++++++++++++++++++
 il/io/numpy/numpy.h   | 18 ++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index 48d3c74..3fa8580 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -175,6 +175,40 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   return numpy_info;
 }
 
+bool hasNumpyData(const NumpyInfo& numpy_info, std::size_t element_size,
+                  il::io_t, std::FILE* fp) {
+  // The product of all the dimensions but the ones that are equal to 0 should
+  // not overflow
+  il::int_t n_max = std::numeric_limits<il::int_t>::max() /
+                    static_cast<il::int_t>(element_size);
+  bool is_empty = false;
+  il::int_t n = 1;
+  for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
+    const il::int_t dim = numpy_info.shape[i];
+    if (dim == 0) {
+      is_empty = true;
+    } else if (n > n_max / dim) {
+      return false;
+    } else {
+      n *= dim;
+    }
+  }
+  if (is_empty) {
+    return true;
+  }
+
+  const long position = std::ftell(fp);
+  if (position < 0 || std::fseek(fp, 0, SEEK_END) != 0) {
+    // We can't know, and the reading of the data will tell
+    return true;
+  }
+  const long end = std::ftell(fp);
+  if (std::fseek(fp, position, SEEK_SET) != 0 || end < position) {
+    return false;
+  }
+  return (end - position) / static_cast<il::int_t>(element_size) >= n;
+}
+
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status) {
   il::String header{};
diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 661e125..9feb3dd 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -57,6 +57,10 @@ struct NumpyInfo {
 };
 
 NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status);
+// Returns false if what is left to be read in the file is not long enough for
+// an array of that shape, or if there can't be such an array
+bool hasNumpyData(const NumpyInfo& numpy_info, std::size_t element_size,
+                  il::io_t, std::FILE* fp);
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status);
 
@@ -208,6 +212,13 @@ class LoadHelper<il::Array<T>> {
       return v;
     }
 
+    if (!il::hasNumpyData(numpy_info, sizeof(T), il::io, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
@@ -273,6 +284,13 @@ class LoadHelper<il::Array2D<T>> {
       return v;
     }
 
+    if (!il::hasNumpyData(numpy_info, sizeof(T), il::io, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0], numpy_info.shape[1]);
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
-- 
2.43.0


From 6bca83144d2ac81968aad17e7e6c5574cdb50d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 119/156] fix: numpy: reject empty matrices that are too large

---
 il/io/numpy/numpy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index 3fa8580..ead953b 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -194,7 +194,9 @@ bool hasNumpyData(const NumpyInfo& numpy_info, std::size_t element_size,
     }
   }
   if (is_empty) {
-    return true;
+    // There is nothing to read, but an empty matrix allocates memory for its
+    // rows or its columns
+    return n <= static_cast<il::int_t>(std::numeric_limits<int>::max());
   }
 
   const long position = std::ftell(fp);
-- 
2.43.0


From b9582865c742c71ba99e58322c4591feebd30738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 120/156] fix: filepack: load what is saved and reject what is
 not valid

---
 il/io/filepack/filepack.h | 686 ++++++++++++++++++--------------------
 1 file changed, 323 insertions(+), 363 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index e5ea722..72dab6e 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -22,6 +22,7 @@
 #include <cstdio>
 
 #include <il/Array.h>
+#include <il/Array2D.h>
 #include <il/Map.h>
 #include <il/MapArray.h>
 #include <il/String.h>
@@ -35,391 +36,340 @@
 
 namespace il {
 
-inline il::int_t readVarint(il::io_t, il::int_t& k, std::FILE* file) {
-  std::size_t ans = 0;
-  std::size_t multiplier = 1;
-  const std::size_t max_byte = 1 << 7;
-  const unsigned char continuation_mask = 0x7F;
-  const unsigned char continuation_byte = 0x80;
-  unsigned char byte;
-  do {
-    std::fread(&byte, sizeof(unsigned char), 1, file);
-    k += 1;
-    ans += multiplier * (byte & continuation_mask);
-    multiplier *= max_byte;
-  } while ((byte & continuation_byte) == continuation_byte);
-
-  return static_cast<il::int_t>(ans);
-}
+// The maps can't be nested more deeply
+const il::int_t filepack_max_depth = 256;
 
-inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
-  std::size_t un = static_cast<std::size_t>(n);
+// Reads a file and never goes over its end. All the methods return false when
+// what should be there is not in the file.
+class FilepackReader {
+ private:
+  std::FILE* file_;
+  il::int_t nb_bytes_;
 
-  const std::size_t max_byte = 1 << 7;
-  const unsigned char continuation_byte = 0x80;
-  while (true) {
-    unsigned char r = static_cast<unsigned char>(un % max_byte);
-    un /= max_byte;
-    if (un == 0) {
-      std::fwrite(&r, sizeof(unsigned char), 1, file);
-      k += 1;
-      break;
-    } else {
-      r |= continuation_byte;
-      std::fwrite(&r, sizeof(unsigned char), 1, file);
-      k += 1;
+ public:
+  explicit FilepackReader(std::FILE* file) : file_{file}, nb_bytes_{0} {
+    if (std::fseek(file, 0, SEEK_END) == 0) {
+      const long end = std::ftell(file);
+      if (end > 0 && std::fseek(file, 0, SEEK_SET) == 0) {
+        nb_bytes_ = static_cast<il::int_t>(end);
+      }
     }
   }
-}
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::Map<il::String, il::Dynamic>& config, std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
+  // Returns true if there are at least n elements left
+  bool has(il::int_t n, std::size_t element_size) const {
+    return n >= 0 && n <= nb_bytes_ / static_cast<il::int_t>(element_size);
+  }
 
-  while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
-    if (size_string == 0) {
-      break;
+  bool Read(il::int_t n, std::size_t element_size, il::io_t, void* data) {
+    if (!has(n, element_size)) {
+      return false;
     }
-    il::Array<char> raw_string{size_string - 1};
-    std::fread(raw_string.Data(), sizeof(char), size_string - 1, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string - 1};
-    k += string.size() + 1;
+    nb_bytes_ -= n * static_cast<il::int_t>(element_size);
+    return std::fread(data, element_size, static_cast<std::size_t>(n), file_) ==
+           static_cast<std::size_t>(n);
+  }
 
-    il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
+  bool ReadVarint(il::io_t, il::int_t& n) {
+    const int nb_bits = 8 * static_cast<int>(sizeof(std::size_t));
+    const unsigned char continuation_mask = 0x7F;
+    const unsigned char continuation_byte = 0x80;
 
-    switch (type) {
-      case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Single: {
-        float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Double: {
-        double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::UnicodeString: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size + 1};
-        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
-        k += size + 1;
-        il::String value{il::StringType::Byte, raw_value.data(),
-                         raw_value.size()};
-        config.Set(std::move(string), il::Dynamic{std::move(value)});
-      } break;
-      case il::Type::ArrayOfDouble: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(A)});
-      } break;
-      case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::ArrayOfStruct: {
-        il::int_t nb_types;
-        il::readVarint(il::io, nb_types, file);
-
-        il::Array<il::String> key{nb_types};
-        il::Array<il::Type> type{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          il::int_t key_size;
-          il::readVarint(il::io, key_size, file);
-
-          il::Array<char> raw_string{key_size};
-          std::fread(raw_string.Data(), sizeof(char), key_size, file);
-          key[i] =
-              il::String{il::StringType::Byte, raw_string.data(), key_size};
-
-          fread(&(type[i]), sizeof(il::Type), 1, file);
+    std::size_t ans = 0;
+    for (int shift = 0; shift < nb_bits; shift += 7) {
+      unsigned char byte = 0;
+      if (!Read(1, sizeof(byte), il::io, &byte)) {
+        return false;
+      }
+      const std::size_t digit = byte & continuation_mask;
+      ans += digit << shift;
+      if ((byte & continuation_byte) == 0) {
+        n = static_cast<il::int_t>(ans);
+        return ((digit << shift) >> shift) == digit;
+      }
+    }
+    return false;
+  }
+
+  bool ReadString(il::int_t n, il::io_t, il::String& string) {
+    if (!has(n, sizeof(char))) {
+      return false;
+    }
+    il::Array<char> raw_string{n};
+    if (!Read(n, sizeof(char), il::io, raw_string.Data())) {
+      return false;
+    }
+    string = il::String{il::StringType::Byte, raw_string.data(), n};
+    return true;
+  }
+
+  template <typename T>
+  bool ReadArray(il::int_t n, il::io_t, il::Array<T>& v) {
+    if (!has(n, sizeof(T))) {
+      return false;
+    }
+    v.Resize(n);
+    return Read(n, sizeof(T), il::io, v.Data());
+  }
+
+  template <typename T>
+  bool ReadArray2D(il::io_t, il::Array2D<T>& A) {
+    il::int_t n0 = 0;
+    il::int_t n1 = 0;
+    if (!Read(1, sizeof(il::int_t), il::io, &n0) ||
+        !Read(1, sizeof(il::int_t), il::io, &n1) || n0 < 0 || n1 < 0) {
+      return false;
+    }
+    // An empty matrix allocates memory for its rows or its columns
+    const il::int_t n_max = static_cast<il::int_t>(1) << 24;
+    if (n0 == 0 || n1 == 0) {
+      if (n0 > n_max || n1 > n_max) {
+        return false;
+      }
+    } else if (!has(n0, sizeof(T)) ||
+               !has(n1, sizeof(T) * static_cast<std::size_t>(n0))) {
+      return false;
+    }
+    A.Resize(n0, n1);
+    for (il::int_t j = 0; j < n1; ++j) {
+      if (!Read(n0, sizeof(T), il::io, A.Data() + j * A.stride(1))) {
+        return false;
+      }
+    }
+    return true;
+  }
+};
+
+template <typename M>
+inline bool auxLoad(il::int_t depth, il::io_t, M& config,
+                    il::FilepackReader& reader);
+
+// Reads an array of struct as a map of arrays
+inline bool auxLoadArrayOfStruct(il::io_t,
+                                 il::MapArray<il::String, il::Dynamic>& map,
+                                 il::FilepackReader& reader) {
+  il::int_t nb_types = 0;
+  if (!reader.ReadVarint(il::io, nb_types) ||
+      !reader.has(nb_types, 2 * sizeof(unsigned char))) {
+    return false;
+  }
+
+  il::Array<il::String> key{nb_types};
+  il::Array<il::Type> type{nb_types};
+  std::size_t size_struct = 0;
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    il::int_t key_size = 0;
+    if (!reader.ReadVarint(il::io, key_size) ||
+        !reader.ReadString(key_size, il::io, key[i]) ||
+        !reader.Read(1, sizeof(il::Type), il::io, &type[i])) {
+      return false;
+    }
+    if (type[i] == il::Type::Double) {
+      size_struct += sizeof(double);
+    } else if (type[i] == il::Type::Integer) {
+      size_struct += sizeof(int);
+    } else {
+      return false;
+    }
+  }
+
+  il::int_t n = 0;
+  if (!reader.ReadVarint(il::io, n) || n < 0 ||
+      (nb_types > 0 && !reader.has(n, size_struct))) {
+    return false;
+  }
+
+  il::Array<il::Dynamic> array{nb_types};
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    if (type[i] == il::Type::Double) {
+      array[i] = il::Dynamic{il::Array<double>{n}};
+    } else {
+      array[i] = il::Dynamic{il::Array<int>{n}};
+    }
+  }
+  for (il::int_t j = 0; nb_types > 0 && j < n; ++j) {
+    for (il::int_t i = 0; i < nb_types; ++i) {
+      if (type[i] == il::Type::Double) {
+        il::Array<double>& v = array[i].As<il::Array<double>>();
+        if (!reader.Read(1, sizeof(double), il::io, &v[j])) {
+          return false;
         }
-        il::int_t n;
-        std::fread(&n, sizeof(il::int_t), 1, file);
-
-        il::Array<il::Dynamic> array{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          switch (type[i]) {
-            case il::Type::Double: {
-              array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-              il::Array<double>& ref = array[i].As<il::Array<double>>();
-              ref.Resize(n);
-            } break;
-            case il::Type::Integer: {
-              array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-              il::Array<int>& ref = array[i].As<il::Array<int>>();
-              ref.Resize(n);
-            } break;
-            default:
-              IL_UNREACHABLE;
-          }
+      } else {
+        il::Array<int>& v = array[i].As<il::Array<int>>();
+        if (!reader.Read(1, sizeof(int), il::io, &v[j])) {
+          return false;
         }
+      }
+    }
+  }
 
-        for (il::int_t j = 0; j < n; ++j) {
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                double value = 0.0;
-                std::fread(&value, sizeof(double), 1, file);
-                ref[j] = value;
-              } break;
-              case il::Type::Integer: {
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                int value = 0;
-                std::fread(&value, sizeof(int), 1, file);
-                ref[j] = value;
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-        }
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    if (map.found(map.search(key[i]))) {
+      return false;
+    }
+    map.Set(std::move(key[i]), std::move(array[i]));
+  }
+  return true;
+}
+
+inline bool auxLoadValue(il::Type type, il::int_t depth, il::io_t,
+                         il::Dynamic& value, il::FilepackReader& reader) {
+  switch (type) {
+    case il::Type::Bool: {
+      unsigned char x = 0;
+      if (!reader.Read(1, sizeof(x), il::io, &x) || x > 1) {
+        return false;
       }
-      case il::Type::MapArrayStringToDynamic:
-      case il::Type::MapStringToDynamic: {
-        il::int_t n_map = 0;
-        const il::int_t n = readVarint(il::io, n_map, file);
-        il::int_t size = 0;
-        il::spot_t i = config.search(string);
-        config.Set(std::move(string),
-                   il::Dynamic{il::Map<il::String, il::Dynamic>{n}}, il::io, i);
-        if (!config.found(i)) {
-          // Hello
-        }
-        il::Map<il::String, il::Dynamic>& config_inner =
-            config.Value(i).As<il::Map<il::String, il::Dynamic>>();
-        auxLoad(size, il::io, config_inner, file);
-        k += size;
-      } break;
-      default:
-        IL_UNREACHABLE;
+      value = il::Dynamic{x != 0};
+      return true;
+    }
+    case il::Type::Integer: {
+      il::int_t x = 0;
+      if (!reader.ReadVarint(il::io, x)) {
+        return false;
+      }
+      value = il::Dynamic{x};
+      return true;
+    }
+    case il::Type::Single: {
+      float x = 0.0f;
+      if (!reader.Read(1, sizeof(x), il::io, &x)) {
+        return false;
+      }
+      value = il::Dynamic{x};
+      return true;
+    }
+    case il::Type::Double: {
+      double x = 0.0;
+      if (!reader.Read(1, sizeof(x), il::io, &x)) {
+        return false;
+      }
+      value = il::Dynamic{x};
+      return true;
+    }
+    case il::Type::UnicodeString: {
+      // There is a '\0' at the end of the string
+      il::int_t size = 0;
+      il::String string{};
+      char end = 0;
+      if (!reader.Read(1, sizeof(size), il::io, &size) ||
+          !reader.ReadString(size, il::io, string) ||
+          !reader.Read(1, sizeof(end), il::io, &end) || end != 0) {
+        return false;
+      }
+      value = il::Dynamic{std::move(string)};
+      return true;
+    }
+    case il::Type::ArrayOfDouble: {
+      il::int_t size = 0;
+      il::Array<double> v{};
+      if (!reader.Read(1, sizeof(size), il::io, &size) ||
+          !reader.ReadArray(size, il::io, v)) {
+        return false;
+      }
+      value = il::Dynamic{std::move(v)};
+      return true;
     }
+    case il::Type::Array2DOfUInt8: {
+      il::Array2D<unsigned char> A{};
+      if (!reader.ReadArray2D(il::io, A)) {
+        return false;
+      }
+      value = il::Dynamic{std::move(A)};
+      return true;
+    }
+    case il::Type::Array2DOfDouble: {
+      il::Array2D<double> A{};
+      if (!reader.ReadArray2D(il::io, A)) {
+        return false;
+      }
+      value = il::Dynamic{std::move(A)};
+      return true;
+    }
+    case il::Type::ArrayOfStruct: {
+      il::MapArray<il::String, il::Dynamic> map{};
+      if (!auxLoadArrayOfStruct(il::io, map, reader)) {
+        return false;
+      }
+      value = il::Dynamic{std::move(map)};
+      return true;
+    }
+    case il::Type::MapArrayStringToDynamic: {
+      il::int_t n = 0;
+      il::MapArray<il::String, il::Dynamic> map{};
+      if (!reader.ReadVarint(il::io, n) ||
+          !auxLoad(depth + 1, il::io, map, reader)) {
+        return false;
+      }
+      value = il::Dynamic{std::move(map)};
+      return true;
+    }
+    case il::Type::MapStringToDynamic: {
+      il::int_t n = 0;
+      il::Map<il::String, il::Dynamic> map{};
+      if (!reader.ReadVarint(il::io, n) ||
+          !auxLoad(depth + 1, il::io, map, reader)) {
+        return false;
+      }
+      value = il::Dynamic{std::move(map)};
+      return true;
+    }
+    default:
+      return false;
   }
 }
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::MapArray<il::String, il::Dynamic>& config,
-                    std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
+// Returns false if the file is not what has been saved
+template <typename M>
+inline bool auxLoad(il::int_t depth, il::io_t, M& config,
+                    il::FilepackReader& reader) {
+  if (depth > filepack_max_depth) {
+    return false;
+  }
 
   while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
+    il::int_t size_string = 0;
+    if (!reader.ReadVarint(il::io, size_string)) {
+      return false;
+    }
     if (size_string == 0) {
-      break;
+      return true;
+    }
+    il::String key{};
+    il::Type type{};
+    if (!reader.ReadString(size_string, il::io, key) ||
+        !reader.Read(1, sizeof(il::Type), il::io, &type)) {
+      return false;
     }
-    il::Array<char> raw_string{size_string};
-    std::fread(raw_string.Data(), sizeof(char), size_string, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string};
-    k += string.size();
 
-    il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
+    il::Dynamic value{};
+    if (!auxLoadValue(type, depth, il::io, value, reader)) {
+      return false;
+    }
+    il::spot_t i = config.search(key);
+    if (config.found(i)) {
+      return false;
+    }
+    config.Set(std::move(key), std::move(value), il::io, i);
+  }
+}
 
-    switch (type) {
-      case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Single: {
-        float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Double: {
-        double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::UnicodeString: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size};
-        std::fread(raw_value.Data(), sizeof(char), size, file);
-        k += size;
-        il::String value{il::StringType::Byte, raw_value.data(), size};
-        config.Set(std::move(string), il::Dynamic{std::move(value)});
-      } break;
-      case il::Type::ArrayOfDouble: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(A)});
-      } break;
-      case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::MapArrayStringToDynamic: {
-        if (n == -1) {
-          const il::int_t nb_types = il::readVarint(il::io, k, file);
-
-          il::Array<il::String> key{nb_types};
-          il::Array<il::Type> type{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            const il::int_t key_size = il::readVarint(il::io, k, file);
-
-            il::Array<char> raw_string{key_size};
-            std::fread(raw_string.Data(), sizeof(char), key_size, file);
-            il::String my_string{il::StringType::Byte, raw_string.data(),
-                                 key_size};
-            key[i] = my_string;
-
-            const std::size_t error =
-                fread(&(type[i]), sizeof(il::Type), 1, file);
-            //            std::cout << "Here" << std::endl;
-          }
-          const il::int_t n = readVarint(il::io, k, file);
-          //          const std::size_t error = std::fread(&n,
-          //          sizeof(il::int_t), 1, file);
-
-          il::Array<il::Dynamic> array{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                ref.Resize(n);
-              } break;
-              case il::Type::Integer: {
-                array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                ref.Resize(n);
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
+inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
+  std::size_t un = static_cast<std::size_t>(n);
 
-          for (il::int_t j = 0; j < n; ++j) {
-            for (il::int_t i = 0; i < nb_types; ++i) {
-              switch (type[i]) {
-                case il::Type::Double: {
-                  il::Array<double>& ref = array[i].As<il::Array<double>>();
-                  double value = 0.0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(double), 1, file);
-                  ref[j] = value;
-                } break;
-                case il::Type::Integer: {
-                  il::Array<int>& ref = array[i].As<il::Array<int>>();
-                  int value = 0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(int), 1, file);
-                  ref[j] = value;
-                } break;
-                default:
-                  IL_UNREACHABLE;
-              }
-            }
-          }
-          std::cout << "End" << std::endl;
-        } else {
-          il::int_t n_map = 0;
-          const il::int_t n = readVarint(il::io, n_map, file);
-          il::int_t size = 0;
-          il::spot_t i = config.search(string);
-          config.Set(std::move(string),
-                     il::Dynamic{il::MapArray<il::String, il::Dynamic>{n}},
-                     il::io, i);
-          if (!config.found(i)) {
-          }
-          il::MapArray<il::String, il::Dynamic>& config_inner =
-              config.Value(i).As<il::MapArray<il::String, il::Dynamic>>();
-          auxLoad(size, il::io, config_inner, file);
-          k += size;
-        }
-      } break;
-        /*
-              case il::Type::MapStringToDynamic:
-              case il::Type::MapArrayStringToDynamic: {
-                il::int_t n_map = 0;
-                const il::int_t n = readVarint(il::io, n_map, file);
-                il::int_t size = 0;
-                il::spot_t i = config.search(string);
-                config.Set(std::move(string),
-                              il::Dynamic{il::MapArray<il::String,
-           il::Dynamic>{n}}, il::io, i); if (!config.found(i)) {
-                }
-                il::MapArray<il::String, il::Dynamic>& config_inner =
-                    config.value(i).as<il::MapArray<il::String, il::Dynamic>>();
-                auxLoad(size, il::io, config_inner, file);
-                k += size;
-              } break;
-        */
-      default:
-        IL_UNREACHABLE;
+  const std::size_t max_byte = 1 << 7;
+  const unsigned char continuation_byte = 0x80;
+  while (true) {
+    unsigned char r = static_cast<unsigned char>(un % max_byte);
+    un /= max_byte;
+    if (un == 0) {
+      std::fwrite(&r, sizeof(unsigned char), 1, file);
+      k += 1;
+      break;
+    } else {
+      r |= continuation_byte;
+      std::fwrite(&r, sizeof(unsigned char), 1, file);
+      k += 1;
     }
   }
 }
@@ -448,9 +398,14 @@ class LoadHelperData<il::MapArray<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    il::FilepackReader reader{file};
+    const bool valid = auxLoad(0, il::io, ans, reader);
 
     const int error = std::fclose(file);
+    if (!valid) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      return ans;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return ans;
@@ -484,9 +439,14 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    il::FilepackReader reader{file};
+    const bool valid = auxLoad(0, il::io, ans, reader);
 
     const int error = std::fclose(file);
+    if (!valid) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      return ans;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return ans;
-- 
2.43.0


From f97034045caad13d25e37aa1b97ca5ef63580e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 121/156] fix: filepack: save all the elements and report the
 errors

---
 il/io/filepack/filepack.h | 300 ++++++++++++++++++++------------------
 1 file changed, 156 insertions(+), 144 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 72dab6e..514d86f 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -354,7 +354,7 @@ inline bool auxLoad(il::int_t depth, il::io_t, M& config,
   }
 }
 
-inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
+inline void writeVarint(il::int_t n, il::io_t, std::FILE* file) {
   std::size_t un = static_cast<std::size_t>(n);
 
   const std::size_t max_byte = 1 << 7;
@@ -364,12 +364,10 @@ inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
     un /= max_byte;
     if (un == 0) {
       std::fwrite(&r, sizeof(unsigned char), 1, file);
-      k += 1;
       break;
     } else {
       r |= continuation_byte;
       std::fwrite(&r, sizeof(unsigned char), 1, file);
-      k += 1;
     }
   }
 }
@@ -457,172 +455,170 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
   }
 };
 
-inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
-                    const il::ArrayView<il::String>& option, il::io_t,
-                    il::int_t& n, std::FILE* file) {
+// Can we save it as an array of struct: as many elements in all the arrays
+inline bool isArrayOfStruct(const il::MapArray<il::String, il::Dynamic>& map,
+                            il::io_t, il::int_t& n) {
   n = 0;
+  bool size_of_array_is_known = false;
+  for (il::spot_t i = map.spotBegin(); i != map.spotEnd(); i = map.next(i)) {
+    il::int_t size = 0;
+    if (map.value(i).type() == il::Type::ArrayOfDouble) {
+      size = map.value(i).as<il::Array<double>>().size();
+    } else if (map.value(i).type() == il::Type::ArrayOfInt32) {
+      size = map.value(i).as<il::Array<int>>().size();
+    } else {
+      return false;
+    }
+    if (size_of_array_is_known && size != n) {
+      return false;
+    }
+    n = size;
+    size_of_array_is_known = true;
+  }
+  return true;
+}
+
+template <typename T>
+inline void auxSaveArray2D(const il::Array2D<T>& A, il::io_t,
+                           std::FILE* file) {
+  const il::int_t size0 = A.size(0);
+  const il::int_t size1 = A.size(1);
+  std::fwrite(&size0, sizeof(il::int_t), 1, file);
+  std::fwrite(&size1, sizeof(il::int_t), 1, file);
+  for (il::int_t j = 0; j < size1; ++j) {
+    std::fwrite(A.data() + j * A.stride(1), sizeof(T),
+                static_cast<std::size_t>(size0), file);
+  }
+}
 
-  for (il::int_t i = 0; i < data.size(); ++i) {
-    il::String to_check{il::StringType::Byte, data.key(i).asCString(),
-                        data.key(i).size()};
-    il::int_t my_size = data.key(i).size();
-    IL_UNUSED(to_check);
-    IL_UNUSED(my_size);
-
-    const il::int_t string_size = data.key(i).size();
-    writeVarint(string_size, il::io, n, file);
-    std::fwrite(data.key(i).asCString(), sizeof(char), string_size, file);
-    n += data.key(i).size();
-    const il::Type type = data.value(i).type();
+inline void auxSaveArrayOfStruct(
+    const il::MapArray<il::String, il::Dynamic>& map, il::int_t n, il::io_t,
+    std::FILE* file) {
+  writeVarint(map.nbElements(), il::io, file);
+  for (il::spot_t i = map.spotBegin(); i != map.spotEnd(); i = map.next(i)) {
+    const il::String& key = map.key(i);
+    writeVarint(key.size(), il::io, file);
+    std::fwrite(key.asCString(), sizeof(char),
+                static_cast<std::size_t>(key.size()), file);
+    const il::Type type = map.value(i).type() == il::Type::ArrayOfDouble
+                              ? il::Type::Double
+                              : il::Type::Integer;
     std::fwrite(&type, sizeof(il::Type), 1, file);
-    n += sizeof(il::Type);
+  }
 
-    switch (data.value(i).type()) {
+  writeVarint(n, il::io, file);
+  for (il::int_t j = 0; j < n; ++j) {
+    for (il::spot_t i = map.spotBegin(); i != map.spotEnd(); i = map.next(i)) {
+      if (map.value(i).type() == il::Type::ArrayOfDouble) {
+        const il::Array<double>& ref = map.value(i).as<il::Array<double>>();
+        std::fwrite(&ref[j], sizeof(double), 1, file);
+      } else {
+        const il::Array<int>& ref = map.value(i).as<il::Array<int>>();
+        std::fwrite(&ref[j], sizeof(int), 1, file);
+      }
+    }
+  }
+}
+
+// Returns false if there is something that can't be saved in that format
+template <typename M>
+inline bool auxSave(const M& data, const il::ArrayView<il::String>& option,
+                    il::int_t depth, il::io_t, std::FILE* file) {
+  if (depth > filepack_max_depth) {
+    return false;
+  }
+
+  for (il::spot_t i = data.spotBegin(); i != data.spotEnd(); i = data.next(i)) {
+    const il::String& key = data.key(i);
+    const il::Dynamic& value = data.value(i);
+    if (key.isEmpty()) {
+      return false;
+    }
+
+    const bool in_option = option.size() > 0 && option[0] == key;
+    const bool save_as_array_of_struct =
+        in_option && option.size() == 1 &&
+        value.type() == il::Type::MapArrayStringToDynamic;
+    writeVarint(key.size(), il::io, file);
+    std::fwrite(key.asCString(), sizeof(char),
+                static_cast<std::size_t>(key.size()), file);
+    const il::Type type =
+        save_as_array_of_struct ? il::Type::ArrayOfStruct : value.type();
+    std::fwrite(&type, sizeof(il::Type), 1, file);
+
+    il::ArrayView<il::String> new_option{};
+    if (in_option && option.size() > 1) {
+      new_option = option.view(il::Range{1, option.size()});
+    }
+
+    switch (type) {
       case il::Type::Bool: {
-        const bool value = data.value(i).to<bool>();
-        std::fwrite(&value, sizeof(bool), 1, file);
-        n += sizeof(bool);
+        const bool x = value.template to<bool>();
+        std::fwrite(&x, sizeof(bool), 1, file);
       } break;
       case il::Type::Integer: {
-        writeVarint(data.value(i).to<il::int_t>(), il::io, n, file);
+        writeVarint(value.template to<il::int_t>(), il::io, file);
       } break;
       case il::Type::Single: {
-        const float value = data.value(i).to<float>();
-        std::fwrite(&value, sizeof(float), 1, file);
-        n += sizeof(float);
+        const float x = value.template to<float>();
+        std::fwrite(&x, sizeof(float), 1, file);
       } break;
       case il::Type::Double: {
-        const double value = data.value(i).to<double>();
-        std::fwrite(&value, sizeof(double), 1, file);
-        n += sizeof(double);
+        const double x = value.template to<double>();
+        std::fwrite(&x, sizeof(double), 1, file);
       } break;
       case il::Type::UnicodeString: {
-        const il::int_t size = data.value(i).as<il::String>().size();
+        const il::String& string = value.template as<il::String>();
+        const il::int_t size = string.size();
         std::fwrite(&size, sizeof(il::int_t), 1, file);
-        std::fwrite(data.value(i).as<il::String>().asCString(), sizeof(char),
-                    size + 1, file);
-        n += sizeof(il::int_t) + size + 1;
+        std::fwrite(string.asCString(), sizeof(char),
+                    static_cast<std::size_t>(size + 1), file);
       } break;
       case il::Type::ArrayOfDouble: {
-        const il::int_t size = data.value(i).as<il::Array<double>>().size();
+        const il::Array<double>& v = value.template as<il::Array<double>>();
+        const il::int_t size = v.size();
         std::fwrite(&size, sizeof(il::int_t), 1, file);
-        std::fwrite(data.value(i).as<il::Array<double>>().data(),
-                    sizeof(double), size, file);
-        n += sizeof(il::int_t) + sizeof(double) * size;
+        std::fwrite(v.data(), sizeof(double), static_cast<std::size_t>(size),
+                    file);
       } break;
       case il::Type::Array2DOfUInt8: {
-        const il::Array2D<unsigned char>& A = data.value(i).as<il::Array2D<unsigned char>>();
-        const il::int_t size0 = A.size(0);
-        const il::int_t size1 = A.size(1);
-        std::fwrite(&size0, sizeof(il::int_t), 1, file);
-        std::fwrite(&size1, sizeof(il::int_t), 1, file);
-        for (int j = 0; j < size1; ++j) {
-          std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
-                      file);
-        }
-        n += 2 * sizeof(il::int_t) + sizeof(unsigned char) * size0 * size1;
+        auxSaveArray2D(value.template as<il::Array2D<unsigned char>>(), il::io,
+                       file);
       } break;
       case il::Type::Array2DOfDouble: {
-        const il::Array2D<double>& A = data.value(i).as<il::Array2D<double>>();
-        const il::int_t size0 = A.size(0);
-        const il::int_t size1 = A.size(1);
-        std::fwrite(&size0, sizeof(il::int_t), 1, file);
-        std::fwrite(&size1, sizeof(il::int_t), 1, file);
-        for (int j = 0; j < size1; ++j) {
-          std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
-                      file);
+        auxSaveArray2D(value.template as<il::Array2D<double>>(), il::io, file);
+      } break;
+      case il::Type::ArrayOfStruct: {
+        const il::MapArray<il::String, il::Dynamic>& map =
+            value.template as<il::MapArray<il::String, il::Dynamic>>();
+        il::int_t n = 0;
+        if (!isArrayOfStruct(map, il::io, n)) {
+          return false;
         }
-        n += 2 * sizeof(il::int_t) + sizeof(double) * size0 * size1;
+        auxSaveArrayOfStruct(map, n, il::io, file);
       } break;
       case il::Type::MapArrayStringToDynamic: {
-        const bool save_as_array_of_struct =
-            (option.size() == 1 && option[0] == data.key(i));
-        if (save_as_array_of_struct) {
-          const il::MapArray<il::String, il::Dynamic>& my_data =
-              data.value(i).as<il::MapArray<il::String, il::Dynamic>>();
-          il::int_t k = 0;
-
-          const il::int_t population_struct = my_data.nbElements();
-          writeVarint(population_struct, il::io, k, file);
-
-          il::int_t n;
-          bool size_of_array_is_known = false;
-          for (il::spot_t i = my_data.spotBegin(); i != my_data.spotEnd();
-               i = my_data.next(i)) {
-            const il::String& key = my_data.key(i);
-            writeVarint(key.size(), il::io, k, file);
-            std::fwrite(key.asCString(), sizeof(char), key.size(), file);
-            const il::Type type = my_data.value(i).type();
-            switch (type) {
-              case il::Type::ArrayOfDouble: {
-                if (!size_of_array_is_known) {
-                  const il::Array<double>& ref =
-                      my_data.value(i).as<il::Array<double>>();
-                  n = ref.size();
-                  size_of_array_is_known = true;
-                }
-                const il::Type my_type = il::Type::Double;
-                std::fwrite(&my_type, sizeof(il::Type), 1, file);
-              } break;
-              case il::Type::ArrayOfInt32: {
-                if (!size_of_array_is_known) {
-                  const il::Array<int>& ref = my_data.value(i).as<il::Array<int>>();
-                  n = ref.size();
-                  size_of_array_is_known = true;
-                }
-                const il::Type my_type = il::Type::Integer;
-                std::fwrite(&my_type, sizeof(il::Type), 1, file);
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-
-          writeVarint(n, il::io, k, file);
-          for (il::int_t j = 0; j < n; ++j) {
-            for (il::spot_t i = my_data.spotBegin(); i != my_data.spotEnd();
-                 i = my_data.next(i)) {
-              const il::Type type = my_data.value(i).type();
-              switch (type) {
-                case il::Type::ArrayOfDouble: {
-                  const il::Array<double>& ref =
-                      my_data.value(i).as<il::Array<double>>();
-                  const double value = ref[j];
-                  std::fwrite(&value, sizeof(double), 1, file);
-                } break;
-                case il::Type::ArrayOfInt32: {
-                  const il::Array<int>& ref = my_data.value(i).as<il::Array<int>>();
-                  std::fwrite(&ref[j], sizeof(int), 1, file);
-                } break;
-                default:
-                  IL_UNREACHABLE;
-              }
-            }
-          }
-        } else {
-          il::int_t n_map = 0;
-          //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
-          writeVarint(
-              data.value(i).as<il::MapArray<il::String, il::Dynamic>>().size(),
-              il::io, n_map, file);
-          il::ArrayView<il::String> new_option{};
-          if (option.size() > 0 && option[0] == data.key(i)) {
-            new_option = option.view(il::Range{1, option.size()});
-          }
-          auxSave(data.value(i).as<il::MapArray<il::String, il::Dynamic>>(),
-                  new_option, il::io, n_map, file);
-          //        std::fseek(file, -(n_map + sizeof(il::int_t)),
-          //          SEEK_CUR);
-          //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
-          //        std::fseek(file, n_map, SEEK_CUR);
+        const il::MapArray<il::String, il::Dynamic>& map =
+            value.template as<il::MapArray<il::String, il::Dynamic>>();
+        writeVarint(map.nbElements(), il::io, file);
+        if (!auxSave(map, new_option, depth + 1, il::io, file)) {
+          return false;
+        }
+      } break;
+      case il::Type::MapStringToDynamic: {
+        const il::Map<il::String, il::Dynamic>& map =
+            value.template as<il::Map<il::String, il::Dynamic>>();
+        writeVarint(map.nbElements(), il::io, file);
+        if (!auxSave(map, new_option, depth + 1, il::io, file)) {
+          return false;
         }
-        std::cout << "End write" << std::endl;
       } break;
       default:
-        IL_UNREACHABLE;
+        return false;
     }
   }
-  writeVarint(0, il::io, n, file);
+  writeVarint(0, il::io, file);
+  return true;
 }
 
 template <>
@@ -647,10 +643,18 @@ class SaveHelperData<il::MapArray<il::String, il::Dynamic>> {
 #endif
 
     il::Array<il::String> option{};
-    il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    const bool valid = auxSave(data, option.view(), 0, il::io, file);
 
+    const bool write_error = (std::ferror(file) != 0);
     const int error = std::fclose(file);
+    if (!valid) {
+      status.SetError(il::Error::Unimplemented);
+      return;
+    }
+    if (write_error) {
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      return;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
@@ -684,10 +688,18 @@ class SaveHelperDataWithOptions<il::MapArray<il::String, il::Dynamic>,
     }
 #endif
 
-    il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    const bool valid = auxSave(data, option.view(), 0, il::io, file);
 
+    const bool write_error = (std::ferror(file) != 0);
     const int error = std::fclose(file);
+    if (!valid) {
+      status.SetError(il::Error::Unimplemented);
+      return;
+    }
+    if (write_error) {
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      return;
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
-- 
2.43.0


From 778cad07b6ba51436e85980a522b25f257323b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 122/156] fix: numpy: do not allocate gigabytes for a matrix
 without element

---
 il/io/numpy/numpy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index ead953b..af6888d 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -196,7 +196,7 @@ bool hasNumpyData(const NumpyInfo& numpy_info, std::size_t element_size,
   if (is_empty) {
     // There is nothing to read, but an empty matrix allocates memory for its
     // rows or its columns
-    return n <= static_cast<il::int_t>(std::numeric_limits<int>::max());
+    return n <= static_cast<il::int_t>(1) << 24;
   }
 
   const long position = std::ftell(fp);
-- 
2.43.0


From 67474d9b9e564352f53a3024399ef9e34737a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 123/156] fix: a Map constructed from an empty list has no
 elements

---
 il/container/hash/Map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 94bc4b6..e819573 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -220,6 +220,8 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
 
   if (n == 0) {
     bucket_ = nullptr;
+    nb_elements_ = 0;
+    nb_tombstones_ = 0;
     p_ = -1;
 #ifdef IL_DEBUGGER_HELPERS
     size_ = 0;
-- 
2.43.0


From b0edf753e424bd4558596343eee2780e1a590aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 124/156] fix: unsigned int, std::size_t and Array2C<unsigned
 char> have a typeId

---
 il/container/dynamic/Type.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/il/container/dynamic/Type.h b/il/container/dynamic/Type.h
index 6a54b92..6c9fdca 100644
--- a/il/container/dynamic/Type.h
+++ b/il/container/dynamic/Type.h
@@ -242,12 +242,22 @@ inline il::Type typeId<short>() {
   return il::Type::Int16;
 }
 
+template <>
+inline il::Type typeId<unsigned int>() {
+  return il::Type::UInt32;
+}
+
 template <>
 inline il::Type typeId<int>() {
   return il::Type::Int;
 }
 
 #ifdef IL_64_BIT
+template <>
+inline il::Type typeId<std::size_t>() {
+  return il::Type::UInt64;
+}
+
 template <>
 inline il::Type typeId<il::int_t>() {
   return il::Type::Integer;
@@ -388,6 +398,11 @@ inline il::Type typeId<il::Array2D<double>>() {
   return il::Type::Array2DOfDouble;
 }
 
+template <>
+inline il::Type typeId<il::Array2C<unsigned char>>() {
+  return il::Type::Array2COfUInt8;
+}
+
 template <>
 inline il::Type typeId<il::Array2C<signed char>>() {
   return il::Type::Array2COfInt8;
-- 
2.43.0


From 9b9f97381ceadfb5f66c51e394b2510d0996a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 125/156] fix: LU: define L() and U()

---
 il/linearAlgebra/dense/factorization/LU.h | 54 +++++++++++------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index 0fc29be..777daf0 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -330,6 +330,33 @@ inline const double &LU<il::Array2D<double>>::U(il::int_t i,
   return lu_(i, j);
 }
 
+inline il::LowerArray2D<double> LU<il::Array2D<double>>::L() const {
+  IL_EXPECT_FAST(size(0) == size(1));
+
+  const il::int_t n = size(0);
+  il::LowerArray2D<double> L{n};
+  for (il::int_t i1 = 0; i1 < n; ++i1) {
+    L(i1, i1) = 1.0;
+    for (il::int_t i0 = i1 + 1; i0 < n; ++i0) {
+      L(i0, i1) = lu_(i0, i1);
+    }
+  }
+  return L;
+}
+
+inline il::UpperArray2D<double> LU<il::Array2D<double>>::U() const {
+  IL_EXPECT_FAST(size(0) == size(1));
+
+  const il::int_t n = size(0);
+  il::UpperArray2D<double> U{n};
+  for (il::int_t i1 = 0; i1 < n; ++i1) {
+    for (il::int_t i0 = 0; i0 <= i1; ++i0) {
+      U(i0, i1) = lu_(i0, i1);
+    }
+  }
+  return U;
+}
+
 /*
 template <> class LU<il::Array2C<double>> {
 private:
@@ -372,33 +399,6 @@ LU<il::Array2C<double>>::LU(il::Array2C<double> A, il::io_t, il::Status &status)
   }
 }
 
-template <> il::LowerArray2D<double> LU<il::Array2D<double>>::L() const {
-  IL_EXPECT_FAST(size(0) == size(1));
-
-  const il::int_t n = size(0);
-  il::LowerArray2D<double> L{n};
-  for (il::int_t i1 = 0; i1 < n; ++i1) {
-    L(i1, i1) = 1.0;
-    for (il::int_t i0 = i1 + 1; i0 < n; ++i0) {
-      L(i0, i1) = lu_(i0, i1);
-    }
-  }
-  return L;
-}
-
-template <> il::UpperArray2D<double> LU<il::Array2D<double>>::U() const {
-  IL_EXPECT_FAST(size(0) == size(1));
-
-  const il::int_t n = size(0);
-  il::UpperArray2D<double> U{n};
-  for (il::int_t i1 = 0; i1 < n; ++i1) {
-    for (il::int_t i0 = 0; i0 <= i1; ++i0) {
-      U(i0, i1) = lu_(i0, i1);
-    }
-  }
-  return U;
-}
-
 // template <>
 // class LU<il::Array2C<double>> {
 // private:
-- 
2.43.0


From e0e00803506d4221c522e303c9d662cfffae69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 126/156] fix: a SparseMatrixCSR of floats can be built from
 its elements

---
 il/container/2d/SparseMatrixCSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index dde3440..68d8db3 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -43,7 +43,7 @@ class SparseMatrixCSR {
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
                   il::Array<Index> row);
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
-                  il::Array<Index> row, il::Array<double> element);
+                  il::Array<Index> row, il::Array<T> element);
   template <Index n>
   SparseMatrixCSR(il::int_t width, il::int_t height,
                   const il::Array<il::SmallArray<Index, n>> &column);
@@ -89,7 +89,7 @@ template <typename Index, typename T>
 SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
                                            il::Array<Index> column,
                                            il::Array<Index> row,
-                                           il::Array<double> element)
+                                           il::Array<T> element)
     : n0_{height},
       n1_{width},
       element_{std::move(element)},
-- 
2.43.0


From d5f8feb34ad2f26ee6c40f180229c5d94a2309b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 127/156] fix: a node of a Tree which has been given a value is
 not empty

---
 il/container/tree/Tree.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index e59544c..d420ea9 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -118,9 +118,8 @@ il::spot_t Tree<T, n>::child(il::spot_t s, il::int_t i) const {
 template <typename T, il::int_t n>
 void Tree<T, n>::Set(il::spot_t s, T x) {
   tree_[s.index].value = x;
-  if (tree_[s.index].flag % 2 == 0) {
-    tree_[s.index].flag += 1;
-  }
+  // The node is valid and it is not empty anymore
+  tree_[s.index].flag |= 3;
 }
 
 template <typename T, il::int_t n>
-- 
2.43.0


From b35677ad204e4c95b20e58d2ca8d2e05f6811989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 128/156] fix: the depth of a Tree whose last level is full

---
 il/container/tree/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index d420ea9..aee74b3 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -88,7 +88,7 @@ il::int_t Tree<T, n>::depth() const {
   il::int_t m = tree_.size();
   il::int_t fac = 1;
   il::int_t depth = -1;
-  while (m >= 0) {
+  while (m > 0) {
     m -= fac;
     fac *= n;
     ++depth;
-- 
2.43.0


From ead158fa01476f1e701358696e22cbeaf3789bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 129/156] fix: a Tree whose nodes have at most one child can be
 given a depth

---
 il/container/tree/Tree.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index aee74b3..dfcb5b9 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -74,11 +74,10 @@ Tree<T, n>::Tree() : tree_{1, il::emplace, true} {}
 
 template <typename T, il::int_t n>
 Tree<T, n>::Tree(il::int_t depth) {
-  il::int_t m = n;
+  il::int_t m = 1;
   for (il::int_t k = 0; k < depth; ++k) {
-    m *= n;
+    m = 1 + n * m;
   }
-  m = (m - 1) / (n - 1);
   tree_.Reserve(m);
   tree_.Resize(1, il::emplace, true);
 };
-- 
2.43.0


From ad1dc45623a87dc75174848cd73c2bf3c609dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 130/156] fix: a Tree keeps track of more than 6 children per
 node

---
 il/container/tree/Tree.h | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index dfcb5b9..7aecd4a 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -19,6 +19,8 @@
 #ifndef IL_TREE_H
 #define IL_TREE_H
 
+// <cstdint> is needed for std::uint64_t
+#include <cstdint>
 // <cstring> is needed for memcpy
 #include <cstring>
 // <initializer_list> is needed for std::initializer_list<T>
@@ -35,18 +37,21 @@ namespace il {
 
 template <typename T, il::int_t n>
 class Tree {
+  static_assert(n >= 1 && n <= 62,
+                "il::Tree<T, n>: n must be in between 1 and 62");
+
  private:
   struct Node {
    public:
     T value;
-    unsigned char flag;
+    std::uint64_t flag;
 
    public:
     Node() : Node{false} {};
     Node(bool valid)
         : value{},
-          flag{valid ? static_cast<unsigned char>(1)
-                     : static_cast<unsigned char>(0)} {};
+          flag{valid ? static_cast<std::uint64_t>(1)
+                     : static_cast<std::uint64_t>(0)} {};
     bool isValid() const { return (flag % 2) == 1; };
     bool isEmpty() const { return ((flag / 2) % 2) == 0; };
     bool hasChild() const { return flag >= 4; };
@@ -133,25 +138,14 @@ bool Tree<T, n>::hasChild(il::spot_t s) const {
 
 template <typename T, il::int_t n>
 bool Tree<T, n>::hasChild(il::spot_t s, il::int_t i) const {
-  unsigned char flag = tree_[s.index].flag;
-  if (i == 0) {
-    return (flag / 4) % 2 == 1;
-  } else if (i == 1) {
-    return (flag / 8) % 2 == 1;
-  } else if (i == 2) {
-    return (flag / 16) % 2 == 1;
-  } else if (i == 3) {
-    return (flag / 32) % 2 == 1;
-  } else {
-    IL_UNREACHABLE;
-  }
-  IL_UNREACHABLE;
-  return true;
+  IL_EXPECT_MEDIUM(i >= 0 && i < n);
+
+  return ((tree_[s.index].flag >> (2 + i)) & 1) == 1;
 };
 
 template <typename T, il::int_t n>
 il::SmallArray<il::int_t, n> Tree<T, n>::children(il::spot_t s) const {
-  il::int_t flag = tree_[s.index].flag / 4;
+  std::uint64_t flag = tree_[s.index].flag / 4;
   il::SmallArray<il::int_t, n> ans{};
   il::int_t i = 0;
   while (flag != 0) {
@@ -168,7 +162,7 @@ template <typename T, il::int_t n>
 void Tree<T, n>::AddChild(il::spot_t s, il::int_t i) {
   IL_EXPECT_MEDIUM(i >= 0 && i < n);
 
-  unsigned char flag = 1 << (2 + i);
+  const std::uint64_t flag = static_cast<std::uint64_t>(1) << (2 + i);
   tree_[s.index].flag = tree_[s.index].flag | flag;
   if (n * s.index + 1 + i >= tree_.size()) {
     tree_.Resize(n * s.index + 2 + i);
-- 
2.43.0


From 1ffbd1e5e80fa5ff347fe9d339c8e70574bca791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 131/156] fix: benchmark returns the time of an iteration of
 the last series

---
 il/benchmark/tools/timer/Benchmark.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/il/benchmark/tools/timer/Benchmark.h b/il/benchmark/tools/timer/Benchmark.h
index 16cf34b..2091598 100644
--- a/il/benchmark/tools/timer/Benchmark.h
+++ b/il/benchmark/tools/timer/Benchmark.h
@@ -22,6 +22,8 @@
 #include <chrono>
 #include <cstdio>
 
+#include <il/core.h>
+
 namespace il {
 
 class BStateShort {
@@ -39,6 +41,7 @@ class BStateShort {
 template <typename P>
 double benchmark_short(const P &program, double time_goal = 1.0) {
   double total_time = 0.0;
+  double time_per_iteration = 0.0;
   il::int_t nb_iterations = 1;
 
   il::int_t count = 0;
@@ -54,15 +57,16 @@ double benchmark_short(const P &program, double time_goal = 1.0) {
         1.0e-9 *
         (1 + std::chrono::duration_cast<std::chrono::nanoseconds>(end - begin)
                  .count());
+    time_per_iteration = total_time / nb_iterations;
     const il::int_t estimated_nb_iterations{
-        static_cast<il::int_t>(time_goal / (total_time / nb_iterations))};
+        static_cast<il::int_t>(time_goal / time_per_iteration)};
     nb_iterations = estimated_nb_iterations <= growth_factor * nb_iterations
                         ? estimated_nb_iterations
                         : growth_factor * nb_iterations;
     ++count;
   }
 
-  return total_time / nb_iterations;
+  return time_per_iteration;
 }
 
 class BState {
@@ -109,6 +113,7 @@ class BState {
 template <typename P>
 double benchmark(const P &program, double time_goal = 1.0) {
   double total_time = 0.0;
+  double time_per_iteration = 0.0;
   il::int_t nb_iterations = 1;
 
   il::int_t count = 0;
@@ -119,15 +124,16 @@ double benchmark(const P &program, double time_goal = 1.0) {
     il::BState state{nb_iterations};
     program(il::io, state);
     total_time = nb_iterations * (1.0e-9 + state.time());
+    time_per_iteration = total_time / nb_iterations;
     const il::int_t estimated_nb_iterations{
-        static_cast<il::int_t>(time_goal / (total_time / nb_iterations))};
+        static_cast<il::int_t>(time_goal / time_per_iteration)};
     nb_iterations = estimated_nb_iterations <= growth_factor * nb_iterations
                         ? estimated_nb_iterations
                         : growth_factor * nb_iterations;
     ++count;
   }
 
-  return total_time / nb_iterations;
+  return time_per_iteration;
 }
 
 template <typename T>
-- 
2.43.0


From 55914cbc95a825fa0d1c7dba49f805faf2525ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 132/156] fix: load looks at the extension of a file name given
 as a std::string

---
 il/io/io_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/io_base.h b/il/io/io_base.h
index 05f8c6f..bbd4192 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -116,7 +116,7 @@ template <typename T>
 T load(const std::string& filename, il::io_t, il::Status& status) {
   il::String il_filename{il::StringType::Byte, filename.c_str(),
                          il::size(filename.c_str())};
-  return il::LoadHelper<T>::load(il_filename, il::io, status);
+  return il::load<T>(il_filename, il::io, status);
 }
 
 template <typename T>
-- 
2.43.0


From 595f74383186c500d5ac34baa1b7b4e72b74473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 133/156] fix: saving with options in a format that has none
 ends with an error

---
 il/io/io_base.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/il/io/io_base.h b/il/io/io_base.h
index bbd4192..d99eab9 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -250,18 +250,13 @@ void save(const T& x, const U& option, const il::String& filename, il::io_t,
     return;
   }
   switch (ft) {
-    case il::FileType::Toml:
-      IL_UNREACHABLE;
-      break;
     case il::FileType::Data:
       il::SaveHelperDataWithOptions<T, U>::save(x, option, filename, il::io,
                                                 status);
       break;
-    case il::FileType::Png:
-      IL_UNREACHABLE;
-      break;
     default:
-      IL_UNREACHABLE;
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
   }
 }
 
-- 
2.43.0


From 04c77922e761a2a9ba94a3f227725e41dc0e1ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 134/156] fix: left-aligned doubles are padded with the fill
 character

---
 il/io/format/format.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/il/io/format/format.h b/il/io/format/format.h
index 6a4d571..c6b9788 100644
--- a/il/io/format/format.h
+++ b/il/io/format/format.h
@@ -3060,10 +3060,9 @@ void BasicWriter<Char>::write_double(T value, const Spec &spec) {
   *format_ptr++ = '%';
   unsigned width_for_sprintf = width;
   if (spec.flag(HASH_FLAG)) *format_ptr++ = '#';
-  if (spec.align() == ALIGN_CENTER) {
+  if (spec.align() == ALIGN_CENTER || spec.align() == ALIGN_LEFT) {
     width_for_sprintf = 0;
   } else {
-    if (spec.align() == ALIGN_LEFT) *format_ptr++ = '-';
     if (width != 0) *format_ptr++ = '*';
   }
   if (spec.precision() >= 0) {
@@ -3121,6 +3120,12 @@ void BasicWriter<Char>::write_double(T value, const Spec &spec) {
     fill_padding(p, spec.width(), n, fill);
     return;
   }
+  if (spec.align() == ALIGN_LEFT && spec.width() > n) {
+    width = spec.width();
+    CharPtr p = grow_buffer(width);
+    std::uninitialized_fill_n(p + n, width - n, fill);
+    return;
+  }
   if (spec.fill() != ' ' || sign) {
     while (*start == ' ') *start++ = fill;
     if (sign) *(start - 1) = sign;
-- 
2.43.0


From c80d3148e4d67181b179b631a49d986d7f0ee47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 135/156] fix: print writes texts with a null character in full

---
 il/io/format/formatIL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/format/formatIL.h b/il/io/format/formatIL.h
index 40b3f9e..16a7589 100644
--- a/il/io/format/formatIL.h
+++ b/il/io/format/formatIL.h
@@ -38,7 +38,7 @@ il::String format(Args&&... args) {
 template <typename... Args>
 void print(Args&&... args) {
   std::string s = fmt::format(args...);
-  std::printf("%s", s.data());
+  std::fwrite(s.data(), 1, s.size(), stdout);
 }
 
 
-- 
2.43.0


From 77d8626b4dc53538aed26efa5368503e6978818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 136/156] fix: centered doubles are kept when the buffer grows

---
 il/io/format/format.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/il/io/format/format.h b/il/io/format/format.h
index c6b9788..5172e9e 100644
--- a/il/io/format/format.h
+++ b/il/io/format/format.h
@@ -3047,8 +3047,9 @@ void BasicWriter<Char>::write_double(T value, const Spec &spec) {
 
   std::size_t offset = buffer_.size();
   unsigned width = spec.width();
+  // The padding is added around what is written beyond the size of the buffer
+  buffer_.Reserve(buffer_.size() + (width > 1u ? width : 1u));
   if (sign) {
-    buffer_.Reserve(buffer_.size() + (width > 1u ? width : 1u));
     if (width > 0) --width;
     ++offset;
   }
-- 
2.43.0


From b0f4e34289c1020574ad920ddb57ed909390df62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 137/156] revert: benchmark returns the time of an iteration of
 the last series

This reverts commit 1ffbd1e: il/benchmark is left as it is.
---
 il/benchmark/tools/timer/Benchmark.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/il/benchmark/tools/timer/Benchmark.h b/il/benchmark/tools/timer/Benchmark.h
index 2091598..16cf34b 100644
--- a/il/benchmark/tools/timer/Benchmark.h
+++ b/il/benchmark/tools/timer/Benchmark.h
@@ -22,8 +22,6 @@
 #include <chrono>
 #include <cstdio>
 
-#include <il/core.h>
-
 namespace il {
 
 class BStateShort {
@@ -41,7 +39,6 @@ class BStateShort {
 template <typename P>
 double benchmark_short(const P &program, double time_goal = 1.0) {
   double total_time = 0.0;
-  double time_per_iteration = 0.0;
   il::int_t nb_iterations = 1;
 
   il::int_t count = 0;
@@ -57,16 +54,15 @@ double benchmark_short(const P &program, double time_goal = 1.0) {
         1.0e-9 *
         (1 + std::chrono::duration_cast<std::chrono::nanoseconds>(end - begin)
                  .count());
-    time_per_iteration = total_time / nb_iterations;
     const il::int_t estimated_nb_iterations{
-        static_cast<il::int_t>(time_goal / time_per_iteration)};
+        static_cast<il::int_t>(time_goal / (total_time / nb_iterations))};
     nb_iterations = estimated_nb_iterations <= growth_factor * nb_iterations
                         ? estimated_nb_iterations
                         : growth_factor * nb_iterations;
     ++count;
   }
 
-  return time_per_iteration;
+  return total_time / nb_iterations;
 }
 
 class BState {
@@ -113,7 +109,6 @@ class BState {
 template <typename P>
 double benchmark(const P &program, double time_goal = 1.0) {
   double total_time = 0.0;
-  double time_per_iteration = 0.0;
   il::int_t nb_iterations = 1;
 
   il::int_t count = 0;
@@ -124,16 +119,15 @@ double benchmark(const P &program, double time_goal = 1.0) {
     il::BState state{nb_iterations};
     program(il::io, state);
     total_time = nb_iterations * (1.0e-9 + state.time());
-    time_per_iteration = total_time / nb_iterations;
     const il::int_t estimated_nb_iterations{
-        static_cast<il::int_t>(time_goal / time_per_iteration)};
+        static_cast<il::int_t>(time_goal / (total_time / nb_iterations))};
     nb_iterations = estimated_nb_iterations <= growth_factor * nb_iterations
                         ? estimated_nb_iterations
                         : growth_factor * nb_iterations;
     ++count;
   }
 
-  return time_per_iteration;
+  return total_time / nb_iterations;
 }
 
 template <typename T>
-- 
2.43.0


From bb3897f93b9a2ee3380ff3e808666837dd8efc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 138/156] fix: the spots of a map are not valid anymore once it
 is cleared

---
 il/container/hash/Map.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index e819573..18f6ced 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1024,6 +1024,10 @@ void Map<K, V, F>::Clear() {
   }
   nb_elements_ = 0;
   nb_tombstones_ = 0;
+#ifdef IL_DEBUG_CLASS
+  // The spots which have been given are not valid anymore
+  ++hash_;
+#endif
 }
 
 template <typename K, typename V, typename F>
-- 
2.43.0


From 8fdcceeb2ef05331b306e723de409ded599dd371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 139/156] fix: an element before the beginning of a row of a
 sparse matrix is refused

---
 il/container/2d/SparseMatrixCSR.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 68d8db3..d59d2c8 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -252,16 +252,16 @@ T &SparseMatrixCSR<Index, T>::operator[](il::int_t k) {
 template <typename Index, typename T>
 T const &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) const {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
-  IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
-                 static_cast<std::size_t>(row_[i + 1]));
+  IL_EXPECT_FAST(static_cast<std::size_t>(k) <
+                 static_cast<std::size_t>(row_[i + 1] - row_[i]));
   return element_[row_[i] + k];
 }
 
 template <typename Index, typename T>
 T &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
-  IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
-                 static_cast<std::size_t>(row_[i + 1]));
+  IL_EXPECT_FAST(static_cast<std::size_t>(k) <
+                 static_cast<std::size_t>(row_[i + 1] - row_[i]));
   return element_[row_[i] + k];
 }
 
-- 
2.43.0


From 46f6cd3e146f381391a25dbf0089966071ffec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 140/156] fix: the new numbers of a resized 3 and 4 dimensional
 array get the default value

---
 il/container/3d/Array3C.h | 12 ++++++------
 il/container/3d/Array3D.h | 12 ++++++------
 il/container/4d/Array4C.h | 20 ++++++++++----------
 il/container/4d/Array4D.h | 20 ++++++++++----------
 4 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 85d5b50..1adaaa7 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1057,12 +1057,12 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
           }
         }
       }
-    }
-    for (il::int_t i0 = 0; i0 < n0; ++i0) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0; i2 < n2;
-             ++i2) {
-          new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T{};
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
+               i2 < n2; ++i2) {
+            new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T{};
+          }
         }
       }
     }
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index ea9a8b6..487f198 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -1059,12 +1059,12 @@ void Array3D<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
           }
         }
       }
-    }
-    for (il::int_t i2 = 0; i2 < n2; ++i2) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i0 = (i2 < n2_old && i1 < n1_old) ? n0_old : 0; i0 < n0;
-             ++i0) {
-          new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T{};
+      for (il::int_t i2 = 0; i2 < n2; ++i2) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i0 = (i2 < n2_old && i1 < n1_old) ? n0_old : 0;
+               i0 < n0; ++i0) {
+            new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T{};
+          }
         }
       }
     }
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 693bfa0..05044a9 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -870,16 +870,16 @@ void Array4C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2,
           }
         }
       }
-    }
-    for (il::int_t i0 = 0; i0 < n0; ++i0) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i2 = 0; i2 < n2; ++i2) {
-          for (il::int_t i3 =
-                   (i0 < n0_old && i1 < n1_old && i2 < n2_old) ? n3_old : 0;
-               i3 < n3; ++i3) {
-            new (data_ +
-                 ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
-                 i3) T{};
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i2 = 0; i2 < n2; ++i2) {
+            for (il::int_t i3 =
+                     (i0 < n0_old && i1 < n1_old && i2 < n2_old) ? n3_old : 0;
+                 i3 < n3; ++i3) {
+              new (data_ +
+                   ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
+                   i3) T{};
+            }
           }
         }
       }
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index ac446e8..cc64b78 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -870,16 +870,16 @@ void Array4D<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2,
           }
         }
       }
-    }
-    for (il::int_t i3 = 0; i3 < n3; ++i3) {
-      for (il::int_t i2 = 0; i2 < n2; ++i2) {
-        for (il::int_t i1 = 0; i1 < n1; ++i1) {
-          for (il::int_t i0 =
-                   (i3 < n3_old && i2 < n2_old && i1 < n1_old) ? n0_old : 0;
-               i0 < n0; ++i0) {
-            new (data_ +
-                 ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) +
-                 i0) T{};
+      for (il::int_t i3 = 0; i3 < n3; ++i3) {
+        for (il::int_t i2 = 0; i2 < n2; ++i2) {
+          for (il::int_t i1 = 0; i1 < n1; ++i1) {
+            for (il::int_t i0 =
+                     (i3 < n3_old && i2 < n2_old && i1 < n1_old) ? n0_old : 0;
+                 i0 < n0; ++i0) {
+              new (data_ +
+                   ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) +
+                   i0) T{};
+            }
           }
         }
       }
-- 
2.43.0


From 93e1ea3630dc23b8bde0292e3c3465700c7f4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 141/156] fix: File.h compiles

---
 il/io/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 9e5db6e..de58d49 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -168,7 +168,7 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // to be saved because if fread fails, its position is undefined.
       const long previous_position = std::ftell(file_);
       const std::size_t full_buffer_read = std::fread(
-          buffer_.data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
+          buffer_.Data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
       if (full_buffer_read == 1) {
         std::memcpy(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
                     buffer_.data(), static_cast<std::size_t>(nb_bytes_to_read));
-- 
2.43.0


From 81c7c50dd5fcfc2a42666783defa09307935578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 142/156] fix: a read of a file larger than the buffer gives
 the bytes of the file

---
 il/io/File.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/il/io/File.h b/il/io/File.h
index de58d49..15d3b4e 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -156,10 +156,13 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // element of n bytes is faster than reading n elements of 1 byte. As a
       // consequence, I we try to do that first and if we fail because we are at
       // the end of the file, we try to read n elements of 1 byte.
-      const std::size_t nb_bytes_read =
-          std::fread(p, nb_bytes_to_read, 1, file_);
-      nb_bytes_read_ += nb_bytes_read;
-      if (nb_bytes_read != nb_bytes_to_read) {
+      const std::size_t chunk_read =
+          std::fread(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
+                     static_cast<std::size_t>(nb_bytes_to_read), 1, file_);
+      next_ = 0;
+      end_buffer_ = 0;
+      nb_bytes_read_ += nb_bytes_to_read;
+      if (chunk_read != 1) {
         status.SetError(il::Error::FilesystemFileNotLongEnough);
         return;
       }
-- 
2.43.0


From f12a634ee0dc511ef6be7c38876010b403954782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 143/156] fix: a file which could not be opened is not said to
 be opened

---
 il/io/File.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/il/io/File.h b/il/io/File.h
index 15d3b4e..a84e2b1 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -61,7 +61,13 @@ class File {
 
 inline File::File(const il::String& filename, il::FileMode mode,
                   il::int_t buffer_size, il::io_t, il::Status& status)
-    : buffer_{buffer_size} {
+    : file_{nullptr},
+      mode_{mode},
+      buffer_{buffer_size},
+      next_{0},
+      end_buffer_{0},
+      nb_bytes_read_{0},
+      opened_{false} {
 #ifdef IL_UNIX
   il::String s_mode{};
   switch (mode) {
@@ -100,10 +106,6 @@ inline File::File(const il::String& filename, il::FileMode mode,
   }
 #endif
 
-  mode_ = mode;
-  next_ = 0;
-  end_buffer_ = 0;
-  nb_bytes_read_ = 0;
   opened_ = true;
   status.SetOk();
 }
-- 
2.43.0


From 0d486c8f9566055c74a680d0523faffdb5a67cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 144/156] fix: a file whose closing fails is not opened anymore

---
 il/io/File.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index a84e2b1..70b0255 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -244,13 +244,14 @@ inline void File::Write(const void* p, il::int_t nb_objects,
 inline void File::Close(il::io_t, il::Status& status) {
   IL_EXPECT_MEDIUM(opened_);
 
+  // Whatever the error, the file can't be used anymore
   const int error = std::fclose(file_);
+  opened_ = false;
   if (error != 0) {
     status.SetError(il::Error::FilesystemCanNotCloseFile);
     return;
   }
 
-  opened_ = false;
   status.SetOk();
 }
 
-- 
2.43.0


From fdbbe33a81aaf72c9faf5eee6829e7900935d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 145/156] fix: random/sobol.h compiles

---
 il/random/sobol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/random/sobol.h b/il/random/sobol.h
index 006ee2c..3ec26a4 100644
--- a/il/random/sobol.h
+++ b/il/random/sobol.h
@@ -36,7 +36,7 @@ inline il::Array2C<double> sobol(il::int_t nb_point, il::int_t dim, double a,
   int error_code;
   error_code = vslNewStream(&stream, brng, static_cast<MKL_INT>(dim));
   error_code = vdRngUniform(VSL_RNG_METHOD_UNIFORM_STD, stream, dim * nb_point,
-                            A.data(), a, b);
+                            A.Data(), a, b);
   error_code = vslDeleteStream(&stream);
 
   return A;
-- 
2.43.0


From 78e4d3803f41db5afb8ba067ada2846ad35bc206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 146/156] fix: ppm.h compiles, and can be included in many
 files

---
 il/io/ppm/ppm.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 449e98c..b000683 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -34,8 +34,8 @@ struct Pixel {
   unsigned char blue;
 };
 
-il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
-                               il::Status& status) {
+inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
+                                      il::Status& status) {
   il::Array2D<il::Pixel> image{};
 
 #ifdef IL_UNIX
@@ -113,7 +113,9 @@ il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 
   // read pixel data from file
   image.Resize(width, height);
-  if (std::fread(image.data(), 3 * width, height, fp) != height) {
+  if (std::fread(image.Data(), 3 * static_cast<std::size_t>(width),
+                 static_cast<std::size_t>(height),
+                 fp) != static_cast<std::size_t>(height)) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From 8e4f8a3a7afb26e03890ccffa91251e5e680ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 147/156] fix: a ppm file which is refused is closed

---
 il/io/ppm/ppm.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index b000683..31bda7f 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -55,10 +55,12 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 
   char buffer[16];
   if (!std::fgets(buffer, sizeof(buffer), fp)) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
   if (buffer[0] != 'P' || buffer[1] != '6') {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -77,12 +79,14 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int height;
 #ifdef IL_UNIX
   if (std::fscanf(fp, "%d %d", &width, &height) != 2) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
 #else
   const int error_no = fscanf_s(fp, "%d %d", &width, &height);
   if (error_no != 2) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -91,6 +95,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   int rgb_comp_color;
 #ifdef IL_UNIX
   if (std::fscanf(fp, "%d", &rgb_comp_color) != 1) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -98,6 +103,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   {
     const int error_no = fscanf_s(fp, "%d", &rgb_comp_color);
     if (error_no != 1) {
+      std::fclose(fp);
       status.SetError(il::Error::BinaryFileWrongFormat);
       return image;
     }
@@ -105,6 +111,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
 #endif
   // check rgb component depth
   if (rgb_comp_color != 255) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
@@ -116,6 +123,7 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   if (std::fread(image.Data(), 3 * static_cast<std::size_t>(width),
                  static_cast<std::size_t>(height),
                  fp) != static_cast<std::size_t>(height)) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From db33a119a7c5098cb1509a55d606a6f42fcceca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 148/156] fix: the reading of a ppm file which ends in its
 header stops

---
 il/io/ppm/ppm.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 31bda7f..16a2d1a 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -68,8 +68,9 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   // Check for comments
   int c{std::getc(fp)};
   while (c == '#') {
-    while (std::getc(fp) != '\n') {
-    };
+    while (c != '\n' && c != EOF) {
+      c = std::getc(fp);
+    }
     c = std::getc(fp);
   }
   std::ungetc(c, fp);
@@ -115,8 +116,9 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
-  while (std::fgetc(fp) != '\n') {
-  };
+  do {
+    c = std::fgetc(fp);
+  } while (c != '\n' && c != EOF);
 
   // read pixel data from file
   image.Resize(width, height);
-- 
2.43.0


From c3ff22cc23d3f3896ee19ceda1ff468a3983614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 149/156] fix: a ppm file with impossible dimensions is refused

---
 il/io/ppm/ppm.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 16a2d1a..58165cd 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -120,6 +120,17 @@ inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
     c = std::fgetc(fp);
   } while (c != '\n' && c != EOF);
 
+  // check that the pixels are in the file
+  const long begin = std::ftell(fp);
+  if (width <= 0 || height <= 0 || begin < 0 ||
+      std::fseek(fp, 0, SEEK_END) != 0 ||
+      (std::ftell(fp) - begin) / 3 / width < height ||
+      std::fseek(fp, begin, SEEK_SET) != 0) {
+    std::fclose(fp);
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    return image;
+  }
+
   // read pixel data from file
   image.Resize(width, height);
   if (std::fread(image.Data(), 3 * static_cast<std::size_t>(width),
-- 
2.43.0


From d3973ea0b844fa462704fd347f25ae372e5fec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 150/156] fix: accept the underscores in the fraction and the
 exponent of a TOML number

---
 il/io/toml/toml.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index e5fd061..c354609 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -37,6 +37,17 @@ class Nested {
   ~Nested() { --depth_; }
 };
 
+// Gives the end of the digits which start at i. They can be separated by a '_'
+il::int_t skipDigits(const il::StringView& string, il::int_t i) {
+  while (i < string.size() && string.hasDigit(i)) {
+    ++i;
+    if (i + 1 < string.size() && string[i] == '_' && string.hasDigit(i + 1)) {
+      ++i;
+    }
+  }
+  return i;
+}
+
 }  // namespace
 
 TomlParser::TomlParser() : depth_{0}, line_{}, line_number_{0}, file_{nullptr} {}
@@ -269,9 +280,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
     // Skip the digits (there should be at least one). Note that trailing 0
     // are accepted.
     const il::int_t i_begin_number = i;
-    while (i < string.size() && string.hasDigit(i)) {
-      ++i;
-    }
+    i = skipDigits(string, i);
     if (i == i_begin_number) {
       status.SetError(il::Error::ParseDouble);
       IL_SET_SOURCE(status);
@@ -289,9 +298,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
         ++i;
       }
       const il::int_t i_begin_exponent = i;
-      while (i < string.size() && string.hasDigit(i)) {
-        ++i;
-      }
+      i = skipDigits(string, i);
       if (i == i_begin_exponent) {
         status.SetError(il::Error::ParseDouble);
         IL_SET_SOURCE(status);
-- 
2.43.0


From 631feaadc8e1e85cd5f81bfb958d72c2b4862b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 151/156] fix: write the type of the elements of every array in
 NumPy files

---
 il/io/numpy/numpy.h | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 9feb3dd..cae0e53 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -40,11 +40,53 @@ struct numpyType {
   static constexpr const char* value = "";
 };
 
+template <>
+struct numpyType<signed char> {
+  static constexpr const char* value = "i1";
+};
+
+template <>
+struct numpyType<unsigned char> {
+  static constexpr const char* value = "u1";
+};
+
+template <>
+struct numpyType<short> {
+  static constexpr const char* value = "i2";
+};
+
+template <>
+struct numpyType<unsigned short> {
+  static constexpr const char* value = "u2";
+};
+
 template <>
 struct numpyType<int> {
   static constexpr const char* value = "i4";
 };
 
+template <>
+struct numpyType<unsigned int> {
+  static constexpr const char* value = "u4";
+};
+
+#ifdef IL_64_BIT
+template <>
+struct numpyType<il::int_t> {
+  static constexpr const char* value = "i8";
+};
+
+template <>
+struct numpyType<il::uint_t> {
+  static constexpr const char* value = "u8";
+};
+#endif
+
+template <>
+struct numpyType<float> {
+  static constexpr const char* value = "f4";
+};
+
 template <>
 struct numpyType<double> {
   static constexpr const char* value = "f8";
-- 
2.43.0


From 667cd339b9732dbf76653c155a090c6baed0d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 152/156] fix: report the errors met while loading a sparse
 matrix

---
 il/io/numpy/numpy.h | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index cae0e53..dd3a64f 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -366,21 +366,45 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     filename_row.Append(".row");
     auto row =
         il::load<il::Array<il::int_t>>(filename_row, il::io, local_status);
-    local_status.AbortOnError();
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_column = filename;
     filename_column.Append(".column");
     auto column =
         il::load<il::Array<il::int_t>>(filename_column, il::io, local_status);
-    local_status.AbortOnError();
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_element = filename;
     filename_element.Append(".element");
     auto element =
         il::load<il::Array<double>>(filename_element, il::io, local_status);
-    local_status.AbortOnError();
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
+    // The three arrays have to be the ones of the same square matrix
     const il::int_t n = row.size() - 1;
+    bool valid = n >= 0 && row[0] == 0 && row[n] == column.size() &&
+                 column.size() == element.size();
+    for (il::int_t i = 0; valid && i < n; ++i) {
+      valid = row[i] <= row[i + 1];
+    }
+    for (il::int_t k = 0; valid && k < column.size(); ++k) {
+      valid = column[k] >= 0 && column[k] < n;
+    }
+    if (!valid) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
+
     status.SetOk();
     return il::SparseMatrixCSR<il::int_t, double>{
         n, n, std::move(column), std::move(row), std::move(element)};
-- 
2.43.0


From 42584ea611243aee63fb1f72da4c6093e8708505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 153/156] fix: load a sparse matrix from the files of its three
 arrays

---
 il/io/numpy/numpy.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index dd3a64f..1272317 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -365,7 +365,8 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     il::String filename_row = filename;
     filename_row.Append(".row");
     auto row =
-        il::load<il::Array<il::int_t>>(filename_row, il::io, local_status);
+        il::LoadHelper<il::Array<il::int_t>>::load(filename_row, il::io,
+                                                   local_status);
     if (!local_status.Ok()) {
       status = std::move(local_status);
       return il::SparseMatrixCSR<il::int_t, double>{};
@@ -374,7 +375,8 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     il::String filename_column = filename;
     filename_column.Append(".column");
     auto column =
-        il::load<il::Array<il::int_t>>(filename_column, il::io, local_status);
+        il::LoadHelper<il::Array<il::int_t>>::load(filename_column, il::io,
+                                                   local_status);
     if (!local_status.Ok()) {
       status = std::move(local_status);
       return il::SparseMatrixCSR<il::int_t, double>{};
@@ -383,7 +385,8 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     il::String filename_element = filename;
     filename_element.Append(".element");
     auto element =
-        il::load<il::Array<double>>(filename_element, il::io, local_status);
+        il::LoadHelper<il::Array<double>>::load(filename_element, il::io,
+                                                local_status);
     if (!local_status.Ok()) {
       status = std::move(local_status);
       return il::SparseMatrixCSR<il::int_t, double>{};
-- 
2.43.0


From 93403635b0ca11e03c964a3b4949a880f197be31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 154/156] fix: check the positions and the elements a sparse
 matrix is made of

---
 il/container/2d/SparseMatrixCSR.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index d59d2c8..2639faf 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -96,6 +96,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
       column_{std::move(column)},
       row_{std::move(row)} {
   IL_EXPECT_FAST(row_.size() == height + 1);
+  IL_EXPECT_FAST(element_.size() == column_.size());
 }
 
 template <typename Index, typename T>
@@ -142,6 +143,10 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   //  maximum number of entry in a row.
   il::Array<Index> nb_entries_per_row{n, 0};
   for (Index l = 0; l < nb_entries; ++l) {
+    IL_EXPECT_MEDIUM(static_cast<std::size_t>(position[l][0]) <
+                     static_cast<std::size_t>(n));
+    IL_EXPECT_MEDIUM(static_cast<std::size_t>(position[l][1]) <
+                     static_cast<std::size_t>(n));
     ++nb_entries_per_row[position[l][0]];
   }
   const Index max_entries_per_row = (n > 0) ? il::max(nb_entries_per_row) : 0;
-- 
2.43.0


From f271a614f1fe359da7ce100efd7f453b456a4f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 155/156] fix: set in an Info a string which belongs to it

---
 il/container/info/Info.h | 63 ++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 7ae685a..089788e 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -85,6 +85,7 @@ class Info {
   unsigned char* data();
   void Resize(il::int_t n);
   void Remove(const char* key);
+  void Insert(const char* key, const unsigned char* entry, il::int_t n);
 
   bool isSmall() const;
   void SetSmallSize(il::int_t n);
@@ -184,11 +185,9 @@ inline Info::~Info() {
 inline void Info::Set(const char* key, bool value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 3 + static_cast<int>(sizeof(int));
-  Remove(key);
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
+  // The entry is written first as the key and the value might belong to us
+  unsigned char* p = new unsigned char[n];
+  il::int_t i = 0;
 
   Set(n, p + i);
   i += sizeof(int);
@@ -202,6 +201,9 @@ inline void Info::Set(const char* key, bool value) {
   ++i;
 
   p[i] = value ? 1 : 0;
+
+  Insert(key, p, n);
+  delete[] p;
 }
 
 inline void Info::Set(const char* key, int value) {
@@ -210,11 +212,9 @@ inline void Info::Set(const char* key, int value) {
 #else
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-  Remove(key);
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
+  // The entry is written first as the key and the value might belong to us
+  unsigned char* p = new unsigned char[n];
+  il::int_t i = 0;
 
   Set(n, p + i);
   i += sizeof(int);
@@ -228,6 +228,8 @@ inline void Info::Set(const char* key, int value) {
   ++i;
 
   Set(value, p + i);
+  Insert(key, p, n);
+  delete[] p;
 #endif
 }
 
@@ -236,11 +238,9 @@ inline void Info::Set(const char* key, il::int_t value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n =
       key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
-  Remove(key);
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
+  // The entry is written first as the key and the value might belong to us
+  unsigned char* p = new unsigned char[n];
+  il::int_t i = 0;
 
   Set(n, p + i);
   i += sizeof(int);
@@ -254,17 +254,18 @@ inline void Info::Set(const char* key, il::int_t value) {
   ++i;
 
   Set(value, p + i);
+
+  Insert(key, p, n);
+  delete[] p;
 }
 #endif
 
 inline void Info::Set(const char* key, double value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + static_cast<int>(sizeof(int) + sizeof(double));
-  Remove(key);
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
+  // The entry is written first as the key and the value might belong to us
+  unsigned char* p = new unsigned char[n];
+  il::int_t i = 0;
 
   Set(n, p + i);
   i += sizeof(int);
@@ -278,17 +279,18 @@ inline void Info::Set(const char* key, double value) {
   ++i;
 
   Set(value, p + i);
+
+  Insert(key, p, n);
+  delete[] p;
 }
 
 inline void Info::Set(const char* key, const char* value) {
   const int key_length = static_cast<int>(strlen(key));
   const int value_length = static_cast<int>(strlen(value));
   const int n = key_length + value_length + 3 + static_cast<int>(sizeof(int));
-  Remove(key);
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
+  // The entry is written first as the key and the value might belong to us
+  unsigned char* p = new unsigned char[n];
+  il::int_t i = 0;
 
   Set(n, p + i);
   i += sizeof(int);
@@ -304,6 +306,9 @@ inline void Info::Set(const char* key, const char* value) {
   for (il::int_t j = 0; j < value_length + 1; ++j) {
     p[i + j] = value[j];
   }
+
+  Insert(key, p, n);
+  delete[] p;
 }
 
 inline il::int_t Info::search(const char* key) const {
@@ -550,6 +555,14 @@ inline void Info::Remove(const char* key) {
   }
 }
 
+inline void Info::Insert(const char* key, const unsigned char* entry,
+                         il::int_t n) {
+  Remove(key);
+  const il::int_t i = size();
+  Resize(i + n);
+  std::memcpy(data() + i, entry, static_cast<std::size_t>(n));
+}
+
 inline void Info::clear() {
   if (!isSmall()) {
     delete[] large_.data;
-- 
2.43.0


From 2cecebda02981e58c2af1e413401dc0203f65067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:16 +0000
Subject: [PATCH 156/156] fix: give ParseDuplicateKey a code of its own

---
 il/container/info/Status.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/info/Status.h b/il/container/info/Status.h
index 8a54ebf..ef982d8 100644
--- a/il/container/info/Status.h
+++ b/il/container/info/Status.h
@@ -63,7 +63,7 @@ enum class Error : unsigned short {
   ParseHeterogeneousArray = 1 * 256 + 12,
   ParseArray = 1 * 256 + 13,
   ParseTable = 1 * 256 + 14,
-  ParseDuplicateKey = 1 * 256 + 14,
+  ParseDuplicateKey = 1 * 256 + 17,
   ParseKey = 1 * 256 + 15,
   ParseValue = 1 * 256 + 16,
   //
-- 
2.43.0

