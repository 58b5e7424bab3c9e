From 3bf9f9276713a7577a377f9d73c63a6ca4a2bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 01/19] fix: DynArray<bool>::AddConstruct clears the new bit
 instead of writing byte [length]

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index c118a4e..7e2470b 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -191,7 +191,7 @@ namespace bss {
     }
     inline ~DynArray() {}
     BSS_FORCEINLINE CT Add(bool item) { _checkSize(); GetBit(_length++) = item; return _length - 1; }
-    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); _array[_length] = false; return _length++; }
+    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); GetBit(_length) = false; return _length++; }
     inline void Remove(CT index)
     {
       assert(index < _length);
-- 
2.43.0


From 77168aa59c54b66d05477e54192c9d5d441fa27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 02/19] fix: DynArray<bool>::SetCapacity reserves storage
 instead of recursing into itself

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 7e2470b..0c01bc2 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -213,7 +213,7 @@ namespace bss {
       for(CT i = _length; i < length; ++i) GetBit(i) = false;
       _length = length;
     }
-    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) SetCapacity(capacity); }
+    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) BASE::_setCapacity(capacity); }
     inline void Flip() { for(CT i = 0; i < _capacity; ++i) _array[i] = ~_array[i]; }
     CT CountBits(CT bitindex, CT length) const
     {
-- 
2.43.0


From 9f886b44caaa6ad7a79a0ae8b4bbe70ef14b68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 03/19] fix: DynArray<bool> const Front/Back read the bit, not
 the storage byte

---
 include/bss-util/DynArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 0c01bc2..5c42a19 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -238,8 +238,8 @@ namespace bss {
     }
     BSS_FORCEINLINE CT Length() const { return _length; }
     BSS_FORCEINLINE CT Capacity() const { return _capacity*DIV_AMT; }
-    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return _array[0]; }
-    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return _array[_length - 1]; }
+    BSS_FORCEINLINE bool Front() const { return operator[](0); }
+    BSS_FORCEINLINE bool Back() const { return operator[](_length - 1); }
     BSS_FORCEINLINE BITREF Front() { assert(_length > 0); return GetBit(0); }
     BSS_FORCEINLINE BITREF Back() { assert(_length > 0); return GetBit(_length - 1); }
     BSS_FORCEINLINE bool operator[](CT index) const { assert(index < _length); return (_array[(index / DIV_AMT)] & (((STORE)1) << (index&MOD_AMT))) != 0; }
-- 
2.43.0


From fea97fe2c863d6d9c58739935255bbf85f198c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 04/19] fix: DynArray<bool>::operator= copies only the source's
 bytes (read past the source)

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 5c42a19..ed40871 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -256,7 +256,7 @@ namespace bss {
     {
       if(copy._length > (_capacity*DIV_AMT))
         BASE::_setCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(STORE));
+      memcpy(_array, copy._array, (_maxChunks(copy._length) / DIV_AMT) * sizeof(STORE));
       _length = copy._length;
       return *this;
     }
-- 
2.43.0


From 05279271a4fe747aae7f421c7158bbb4152c433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:30 +0000
Subject: [PATCH 05/19] fix: DynArray<bool>::Insert carries the original top
 bit of each byte

---
 include/bss-util/DynArray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index ed40871..a2204b1 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -321,8 +321,9 @@ namespace bss {
 
       for(CT i = ind + 1; i < len; ++i)
       {
+        STORE next = _array[i];
         _array[i] = (store >> MOD_AMT) | ((_array[i] << 1) & (STORE)(~1));
-        store = _array[i];
+        store = next;
       }
     }
 
-- 
2.43.0


From 19daf4e4084f4dad39e60134ef88f5d7faaa1361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:24 +0000
Subject: [PATCH 06/19] fix: BinaryHeap construction from an array copies
 length elements, not sizeof(T)*length

---
 include/bss-util/BinaryHeap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 9f1f022..55b97c6 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -43,7 +43,7 @@ namespace bss {
     inline BinaryHeap() : BASE(0) {}
     inline BinaryHeap(const T* src, CT length) : BASE(length)
     { 
-      _copy(_array, src, sizeof(T)*length);
+      BASE::_copy(_array, src, length);
       _length = length;
       Heapify(_array, _length);
     }
-- 
2.43.0


From cbc4360eff129ba36ceb04f286144945acaa44c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:24 +0000
Subject: [PATCH 07/19] fix: BinaryHeap::Remove keeps heap order when the last
 item belongs above the hole, and allows removing the last item

---
 include/bss-util/BinaryHeap.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 55b97c6..bd8cd7d 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -68,12 +68,17 @@ namespace bss {
     // Sets a key and percolates
     inline bool Set(CT index, const T& val) { return _set(index, val); }
     inline bool Set(CT index, T&& val) { return _set(index, std::move(val)); }
-    // To remove a node, we replace it with the last item in the heap and then percolate down
+    // To remove a node, we replace it with the last item in the heap and then percolate it up or down
     inline bool Remove(CT index)
     {
       if(index >= _length) return false; //We don't have to copy _array[_length - 1] because it stays valid during the percolation
-      if(_length > 1) //We can't percolate down if there's nothing in the array! 
-        PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      if(index < _length - 1) //If we're removing the last item, nothing has to move
+      {
+        if(index > 0 && CFunc(_array[_length - 1], _array[CBH_PARENT(index)]) > 0)
+          PercolateUp(_array, _length - 1, index, _array[_length - 1], this);
+        else
+          PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      }
       BASE::RemoveLast();
       return true;
     }
-- 
2.43.0


From 6fbebef68cde08d7d37532042ee60857a3fa578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:44 +0000
Subject: [PATCH 08/19] fix: bssLog2(uint64_t) counts leading zeros of the
 64-bit value

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 2fda1b3..af0a9a3 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -870,7 +870,7 @@ namespace bss {
     unsigned long r;
     _BitScanReverse64(&r, v);
 #elif defined(BSS_COMPILER_GCC) && defined(BSS_64BIT)
-    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clz(v));
+    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clzll(v));
 #else
     const uint64_t b[] = { 0x2, 0xC, 0xF0, 0xFF00, 0xFFFF0000, 0xFFFFFFFF00000000 };
     const uint32_t S[] = { 1, 2, 4, 8, 16, 32 };
-- 
2.43.0


From c85221ebd99f13f4410c1969a373a73ec09648b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:44 +0000
Subject: [PATCH 09/19] fix: IntFastSqrt sets root bits in T, not in int
 (64-bit results were wrong)

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index af0a9a3..f88c7df 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -646,7 +646,7 @@ namespace bss {
       if(n >= t)
       {
         n -= t;
-        root |= 2 << (i);
+        root |= ((T)2) << (i);
       }
     }
     return root >> 1;
-- 
2.43.0


From 9c2f9f77cc8381bd9b57d8c03ac743178346c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:29 +0000
Subject: [PATCH 10/19] fix: Fixed conversion between precisions rescales in
 the right direction (and in the wider type)

---
 include/bss-util/FixedPt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/FixedPt.h b/include/bss-util/FixedPt.h
index b487c14..f872be8 100644
--- a/include/bss-util/FixedPt.h
+++ b/include/bss-util/FixedPt.h
@@ -62,7 +62,7 @@ namespace bss {
   public:
     inline constexpr Fixed(const Fixed& copy) : _bits(copy._bits) {}
     template<uint8_t B, typename U, bool S>
-    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<T, B - D>(copy.Bits())) {}
+    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<std::common_type_t<T, U>, D - B>(copy.Bits())) {}
     inline constexpr explicit Fixed(const T v) : _bits(v << D) {}
     inline constexpr Fixed(BITS bits) : _bits(bits.bits) {}
     inline explicit Fixed(const float f) : _bits(FixedPtConv<T, D, float>(f)) {}
@@ -75,7 +75,7 @@ namespace bss {
 
     inline Fixed& operator=(const Fixed& right) { _bits = right._bits; return *this; }
     template<uint8_t B, typename U, bool S>
-    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<T, B - D>(right.Bits()); return *this; }
+    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<std::common_type_t<T, U>, D - B>(right.Bits()); return *this; }
 
     inline Fixed<(sizeof(T) << 3) - D, T, SATURATE> Reciprocal() const
     { 
-- 
2.43.0


From 1c4e7006a69da7bf43ed2d0e4645ab6cb7ef1186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:29 +0000
Subject: [PATCH 11/19] fix: BitStream::Read does not mix the destination's old
 bits into a partial byte

---
 include/bss-util/BitStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 0385f31..721b333 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -64,7 +64,7 @@ namespace bss {
       if(!i)
         return;
 
-      d[k] |= (_base->peek() >> _roffset);
+      d[k] = (_base->peek() >> _roffset);
 
       if((_roffset + i) >= 8) // We ran over our current character
       {
-- 
2.43.0


From 091aa649115a8d717bf26287b305d12ccef8cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:02 +0000
Subject: [PATCH 12/19] fix: assigning a ref_ptr its own object no longer
 destroys the object when it holds the last reference

---
 include/bss-util/RefCounter.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/RefCounter.h b/include/bss-util/RefCounter.h
index 94ea157..e947c79 100644
--- a/include/bss-util/RefCounter.h
+++ b/include/bss-util/RefCounter.h
@@ -72,13 +72,12 @@ namespace bss {
     }
     inline ref_ptr& operator=(T* right)
     { 
+      if(right != 0) // Grab first, in case this is the last reference to the same object
+        right->Grab(); 
       if(_p != 0) 
         _p->Drop();
 
       _p = right; 
-      if(_p != 0) 
-        _p->Grab(); 
-
       return *this; 
     }
 
-- 
2.43.0


From bf8439b274c84665c31424edfadc5cddf8cfac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:02 +0000
Subject: [PATCH 13/19] fix: moving a ref_ptr into itself no longer loses the
 object

---
 include/bss-util/RefCounter.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bss-util/RefCounter.h b/include/bss-util/RefCounter.h
index e947c79..183a71a 100644
--- a/include/bss-util/RefCounter.h
+++ b/include/bss-util/RefCounter.h
@@ -63,6 +63,9 @@ namespace bss {
     inline ref_ptr& operator=(const ref_ptr& right) { return operator=(right._p); }
     inline ref_ptr& operator=(ref_ptr&& right)
     {
+      if(&right == this)
+        return *this;
+
       if(_p != 0) 
         _p->Drop();
 
-- 
2.43.0


From b3e35f1d7a985b5d8919cdf6c45958a58bada15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:02 +0000
Subject: [PATCH 14/19] fix: move-assigning a non-owning OwnerPtr no longer
 takes ownership

---
 include/bss-util/SmartPtr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index d7fe210..d18e6b4 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -61,9 +61,12 @@ namespace bss {
     }
     inline OwnerPtr& operator=(OwnerPtr&& right)
     { 
+      if(&right == this)
+        return *this;
+
       _disown(); 
       _p = right._p; 
-      _owner = true; 
+      _owner = right._owner; // moving a pointer that is not the owner must not make this one delete the object
       right._owner = false;
       return *this; 
     }
-- 
2.43.0


From dba872f571c7da442178556e3385d427f8ecf853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:02 +0000
Subject: [PATCH 15/19] fix: assigning an OwnerPtr to itself no longer deletes
 its object

---
 include/bss-util/SmartPtr.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index d18e6b4..de84ce0 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -47,6 +47,9 @@ namespace bss {
     }
     inline OwnerPtr& operator=(const OwnerPtr& right)
     {
+      if(&right == this)
+        return *this;
+
       _disown();
       _p = right._p;
       _owner = false;
-- 
2.43.0


From 4a603aa9cc71ca163f86ece79c2f0b3337539536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:35 +0000
Subject: [PATCH 16/19] fix: uniting a set with itself no longer corrupts the
 disjoint set

---
 include/bss-util/DisjointSet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index ed2930d..f716c82 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -36,10 +36,10 @@ namespace bss {
       _capacity = num;
       Reset();
     }
-    // Union (combine) two disjoint sets into one set. Returns false if set1 or set2 aren't set names.
+    // Union (combine) two disjoint sets into one set. Returns false if set1 or set2 aren't set names, or if they are the same set.
     inline bool Union(T set1, T set2)
     {
-      if(_invalidIndex(set1) || _invalidIndex(set2))
+      if(set1 == set2 || _invalidIndex(set1) || _invalidIndex(set2))
         return false;
 
       Ty w1 = _array[set1];
-- 
2.43.0


From e27994369507e47eff4eb511b723a8b74b7ccecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:29 +0000
Subject: [PATCH 17/19] fix: 64-bit asmbts/asmbtr name the operand size, an
 immediate bit number addressed only 32 bits in optimised builds

---
 include/bss-util/lockless.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index bc6b735..e9e25a9 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -223,7 +223,7 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
           : [bit] "ri" (bit));
@@ -260,7 +260,7 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
           : [bit] "ri" (bit));
-- 
2.43.0


From cecda91063f8959f66ef6a5728ba46eef7a31752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:39 +0000
Subject: [PATCH 18/19] fix: GreedyAlloc move assignment leaked its own chunks

---
 include/bss-util/GreedyAlloc.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/bss-util/GreedyAlloc.h b/include/bss-util/GreedyAlloc.h
index f5bf9c9..16a93f2 100644
--- a/include/bss-util/GreedyAlloc.h
+++ b/include/bss-util/GreedyAlloc.h
@@ -124,6 +124,17 @@ namespace bss {
 
     GreedyAlloc& operator=(GreedyAlloc&& mov)
     {
+      if(this == &mov)
+        return *this;
+
+      Node* hold = _root.load(std::memory_order_relaxed);
+      while(hold) // Release our own chunks before taking over the others
+      {
+        Node* next = hold->next;
+        ALIGNEDFREE(hold);
+        hold = next;
+      }
+
       _root.store(mov._root.load(std::memory_order_relaxed), std::memory_order_relaxed);
       _curpos.store(mov._curpos.load(std::memory_order_relaxed), std::memory_order_relaxed);
       assert(_align == mov._align);
-- 
2.43.0


From 51ec2098644540e84cb8771a81a9db43b6b983ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:32 +0000
Subject: [PATCH 19/19] fix: UTF conversions read one element past the given
 length

---
 bss-util/ConvertUTF.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/ConvertUTF.c b/bss-util/ConvertUTF.c
index 0c758ce..058c076 100644
--- a/bss-util/ConvertUTF.c
+++ b/bss-util/ConvertUTF.c
@@ -118,7 +118,7 @@ BSS_DLLEXPORT size_t UTF32toUTF16(const char32_t*BSS_RESTRICT input, ptrdiff_t s
   UTF16* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     buflen += 1 + (*input > UNI_MAX_BMP);
     ++input;
@@ -255,7 +255,7 @@ BSS_DLLEXPORT size_t UTF32toUTF8(const char32_t*BSS_RESTRICT input, ptrdiff_t sr
   UTF8* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     if(*input < (UTF32)0x80)
       buflen += 1;
@@ -400,7 +400,7 @@ BSS_DLLEXPORT size_t UTF8toUTF32(const char*BSS_RESTRICT input, ptrdiff_t srclen
   UTF32* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char*)source) < srclen)
+  while((input - (const char*)source) < srclen && *input)
   {
     buflen += (((*input) & 0b11000000) != 0b10000000);
     ++input;
-- 
2.43.0

