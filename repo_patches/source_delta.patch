From d84cf7c89fe7f40a505750d567356658689217d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 1/9] fix: give Int an Equal method so that it can be a generic
 Map/Set key

---
 int_map.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/int_map.go b/int_map.go
index 6eeb39c..66ad37a 100644
--- a/int_map.go
+++ b/int_map.go
@@ -31,6 +31,8 @@ import (
 // Int may be used as the key type of a generic Map[Int, V].
 type Int int
 
+func (i Int) Equal(i2 Int) bool { return i == i2 }
+
 func (i Int) Hash(seed maphash.Seed, iter uint) uint64 {
 	b := intbytes(IntKey(i))
 	var hw maphash.Hash
-- 
2.43.0


From c6487433a14c0ae2d30a8daa3e9d25f494630541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 2/9] fix: clear inline key bits when an integer key's slot
 becomes a branch

IntMap and IntSet keep the upper half of a key in the slot's type bitmap.
When two keys shared more than one hash digit, the intermediate branches
were created without resetting that bitmap, so a key outside [0, 2^32)
left garbage type bits behind: entries were lost and branches were read
as values.
---
 int_map.go | 2 ++
 int_set.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/int_map.go b/int_map.go
index 66ad37a..d983b20 100644
--- a/int_map.go
+++ b/int_map.go
@@ -195,6 +195,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0 // drop the inline key bits
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
@@ -304,6 +305,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0 // drop the inline key bits
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
diff --git a/int_set.go b/int_set.go
index 7c6e44a..8c09c38 100644
--- a/int_set.go
+++ b/int_set.go
@@ -144,6 +144,7 @@ func (s IntSet) Add(key IntKey) {
 				return // key added
 			}
 			// handle collision at new level
+			item.tmap = 0 // drop the inline key bits
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
-- 
2.43.0


From 69f16716f1754517c2249e95f417e2a52287ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 3/9] fix: store the value when ArrMap.Set splits a colliding
 slot

---
 arr_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arr_map.go b/arr_map.go
index 01fda75..ff26598 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -167,7 +167,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
+				kv := &arrkv[K, V]{k: key, v: value}
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From db067fae11023df9253bcd3bfaeca08cb6c46d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 4/9] fix: delete the matching key, not a mismatching one, in
 BytesSet.Del

---
 bytes_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes_set.go b/bytes_set.go
index c0027fb..7fac452 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -203,7 +203,7 @@ func (s BytesSet) Del(key []byte) {
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			continue
 		}
-		if bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
+		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
 			return
 		}
 		l.pmap &^= bit
-- 
2.43.0


From 44ab7cea9f14674434af307993066ce635fbc7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 5/9] fix: do not truncate the iteration count in HashBytes

With an iteration count of 255 the loop never ended, and larger counts
were taken modulo 256.
---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index d93eb22..c1cd4c8 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -43,7 +43,7 @@ type Key[K any] interface {
 func HashBytes(key []byte, seed maphash.Seed, iter uint) uint64 {
 	var hw maphash.Hash
 	hw.SetSeed(seed)
-	for i := uint8(0); i <= uint8(iter); i++ {
+	for i := uint(0); i <= iter; i++ {
 		hw.Write(key)
 	}
 	return hw.Sum64()
-- 
2.43.0


From 550e11e59fc19dd45c4b387e76830ee1784b94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 6/9] fix: rehash the conflicting key of generic maps and sets
 with the right count

The iteration count is the number of used-up 64-bit hashes (d/16), not the
digit position within the current one (d%16), and Map.Mod hashed the new
key instead of the conflicting one. Entries became unreachable.
---
 generic_map.go | 4 ++--
 generic_set.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index c1cd4c8..a501af2 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -146,7 +146,7 @@ func (m Map[K, V]) Set(key K, value V) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d/(64/4))) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -235,7 +235,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			return
 		}
 		// rehash conflicting key
-		chd := key.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d/(64/4))) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
diff --git a/generic_set.go b/generic_set.go
index ec8f206..d6f22b8 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -97,7 +97,7 @@ func (s Set[K]) Add(key K) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(s.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(s.seed, uint(d/(64/4))) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		s.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From 9afdb0a1fa57357cb03c01900b1e32ef2c36a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 7/9] fix: call the Mod callback before splitting a colliding
 slot

The callback ran while the slot was half converted into a branch: a panic
or runtime.Goexit in the callback left the map corrupt, and reads of the
map from the callback saw a missing or malformed entry.
---
 arr_map.go     | 4 ++--
 bytes_map.go   | 4 ++--
 generic_map.go | 4 ++--
 int_map.go     | 4 ++--
 string_map.go  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index ff26598..7f10dad 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -251,6 +251,8 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		kv := &arrkv[K, V]{k: key}
+		mod(&kv.v, false) // may panic, so call it before changing anything
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -269,8 +271,6 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/bytes_map.go b/bytes_map.go
index 830804d..ff5663f 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -267,6 +267,8 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			item.ptr = unsafe.Pointer(kv)
 			return
 		}
+		kv := &byteskv[V]{k: key}
+		mod(&kv.v, false) // may panic, so call it before changing anything
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -285,8 +287,6 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &byteskv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/generic_map.go b/generic_map.go
index a501af2..5e2fafd 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -236,6 +236,8 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d/(64/4))) >> (4 * (d % (64 / 4)))
+		kv := &kv[K, V]{k: key}
+		mod(&kv.v, false) // may panic, so call it before changing anything
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -252,8 +254,6 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &kv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/int_map.go b/int_map.go
index d983b20..e9ebfdf 100644
--- a/int_map.go
+++ b/int_map.go
@@ -273,6 +273,8 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		val := &intkv[V]{}
+		mod(&val.v, false) // may panic, so call it before changing anything
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -291,8 +293,6 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				val := &intkv[V]{}
-				mod(&val.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0] = link{ptr: unsafe.Pointer(val), pmap: uint32(key), tmap: uint32(key >> 32)}
 					pair[1] = link{ptr: unsafe.Pointer(cval), pmap: uint32(ckey), tmap: uint32(ckey >> 32)}
diff --git a/string_map.go b/string_map.go
index 2470a61..823bf07 100644
--- a/string_map.go
+++ b/string_map.go
@@ -253,6 +253,8 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		kv := &strkv[V]{k: key}
+		mod(&kv.v, false) // may panic, so call it before changing anything
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -271,8 +273,6 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &strkv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From fa2157a59821e6d5f48e6206f007c03e1b99f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 8/9] fix: do not keep deleted entries reachable

Del left references behind: the traversal scratch space in the root was
not cleared when the key was missing or the path had outgrown it, and the
array slot vacated by shifting items back kept the old link. Deleted keys
and values (and whole stale branches) could not be garbage collected.
---
 amt.go         | 7 +++----
 arr_map.go     | 5 ++++-
 arr_set.go     | 5 ++++-
 bytes_map.go   | 5 ++++-
 bytes_set.go   | 5 ++++-
 generic_map.go | 5 ++++-
 generic_set.go | 5 ++++-
 int_map.go     | 5 ++++-
 int_set.go     | 5 ++++-
 string_map.go  | 5 ++++-
 string_set.go  | 5 ++++-
 11 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/amt.go b/amt.go
index 501f94e..e5debc1 100644
--- a/amt.go
+++ b/amt.go
@@ -56,7 +56,7 @@ import (
 	"unsafe"
 )
 
-// root contains the root level of a map or set. Each root allocation is 512 bytes
+// root contains the root level of a map or set. Each root allocation is 320 bytes
 // on 64-bit architectures. Multiples of 64 bytes will likely be 64-byte (cache)
 // aligned by the memory allocator. See runtime/sizeclasses.go.
 type root struct {
@@ -64,9 +64,8 @@ type root struct {
 	seed  maphash.Seed
 	len   uint64
 	dep   uint64
-	_     [3]uint64    // pad to 64-byte alignment
-	items [16]link     // referenced by link
-	path  [12]pathLink // scratch for traversal path during deletion
+	_     [3]uint64 // pad to 64-byte alignment
+	items [16]link  // referenced by link
 }
 
 func newRoot() *root {
diff --git a/arr_map.go b/arr_map.go
index 7f10dad..40cfaea 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -319,7 +319,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 
 // Del deletes the value for key.
 func (m ArrMap[K, V]) Del(key K) {
-	path := m.path[:0]
+	path := make([]pathLink, 0, 12)
 	kb := key.KeyBytes()
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
@@ -376,6 +376,9 @@ func (m ArrMap[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/arr_set.go b/arr_set.go
index c19eccf..5a7d611 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -180,7 +180,7 @@ func (s ArrSet[K]) Add(key K) {
 
 // Del deletes key from s.
 func (s ArrSet[K]) Del(key K) {
-	path := s.path[:0]
+	path := make([]pathLink, 0, 12)
 	kb := key.KeyBytes()
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
@@ -237,6 +237,9 @@ func (s ArrSet[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/bytes_map.go b/bytes_map.go
index ff5663f..6653bab 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -335,7 +335,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 
 // Del deletes the value for key.
 func (m BytesMap[V]) Del(key []byte) {
-	path := m.path[:0]
+	path := make([]pathLink, 0, 12)
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
@@ -391,6 +391,9 @@ func (m BytesMap[V]) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/bytes_set.go b/bytes_set.go
index 7fac452..1300b8a 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -180,7 +180,7 @@ func (s BytesSet) Add(key []byte) {
 
 // Del deletes key from s.
 func (s BytesSet) Del(key []byte) {
-	path := s.path[:0]
+	path := make([]pathLink, 0, 12)
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
@@ -236,6 +236,9 @@ func (s BytesSet) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/generic_map.go b/generic_map.go
index 5e2fafd..bbfb469 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -302,7 +302,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 
 // Del deletes the value for key.
 func (m Map[K, V]) Del(key K) {
-	path := m.path[:0]
+	path := make([]pathLink, 0, 12)
 	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
@@ -354,6 +354,9 @@ func (m Map[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/generic_set.go b/generic_set.go
index d6f22b8..bbba72e 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -161,7 +161,7 @@ func (s Set[K]) Add(key K) {
 
 // Del deletes key from s.
 func (s Set[K]) Del(key K) {
-	path := s.path[:0]
+	path := make([]pathLink, 0, 12)
 	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
@@ -213,6 +213,9 @@ func (s Set[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/int_map.go b/int_map.go
index e9ebfdf..1b33754 100644
--- a/int_map.go
+++ b/int_map.go
@@ -348,7 +348,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 
 // Del deletes the value for key.
 func (m IntMap[V]) Del(key IntKey) {
-	path := m.path[:0]
+	path := make([]pathLink, 0, 12)
 	kb := intbytes(key)
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
@@ -405,6 +405,9 @@ func (m IntMap[V]) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/int_set.go b/int_set.go
index 8c09c38..7d67f19 100644
--- a/int_set.go
+++ b/int_set.go
@@ -183,7 +183,7 @@ func (s IntSet) Add(key IntKey) {
 
 // Del deletes key from s.
 func (s IntSet) Del(key IntKey) {
-	path := s.path[:0]
+	path := make([]pathLink, 0, 12)
 	kb := intbytes(key)
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
@@ -240,6 +240,9 @@ func (s IntSet) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/string_map.go b/string_map.go
index 823bf07..8ad9e0d 100644
--- a/string_map.go
+++ b/string_map.go
@@ -321,7 +321,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 
 // Del deletes the value for key.
 func (m StringMap[V]) Del(key string) {
-	path := m.path[:0]
+	path := make([]pathLink, 0, 12)
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
@@ -377,6 +377,9 @@ func (m StringMap[V]) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
diff --git a/string_set.go b/string_set.go
index 4b7da97..42b7f29 100644
--- a/string_set.go
+++ b/string_set.go
@@ -177,7 +177,7 @@ func (s StringSet) Add(key string) {
 
 // Del deletes key from s.
 func (s StringSet) Del(key string) {
-	path := s.path[:0]
+	path := make([]pathLink, 0, 12)
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
@@ -233,6 +233,9 @@ func (s StringSet) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if count%4 != 0 || d == 0 { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
-- 
2.43.0


From b1b482cf28ec2d70ff2ece0beef6ed0f428662e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 9/9] fix: do not overflow the depth after 16 complete hash
 collisions

The depth was counted in a uint8: keys that agree in more than 255 hash
digits (16 successive 64-bit collisions, possible with a weak custom Hash)
were lost or made operations loop forever.
---
 arr_map.go     | 12 ++++++------
 arr_set.go     |  8 ++++----
 bytes_map.go   | 12 ++++++------
 bytes_set.go   |  8 ++++----
 generic_map.go |  8 ++++----
 generic_set.go |  6 +++---
 int_map.go     | 12 ++++++------
 int_set.go     |  8 ++++----
 string_map.go  | 12 ++++++------
 string_set.go  |  8 ++++----
 10 files changed, 47 insertions(+), 47 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index 40cfaea..e81a52f 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -85,7 +85,7 @@ func (m ArrMap[K, V]) Ptr(key K) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -117,7 +117,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -145,7 +145,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -219,7 +219,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -247,7 +247,7 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -324,7 +324,7 @@ func (m ArrMap[K, V]) Del(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/arr_set.go b/arr_set.go
index 5a7d611..c95e595 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -55,7 +55,7 @@ func (s ArrSet[K]) Has(key K) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -84,7 +84,7 @@ func (s ArrSet[K]) Add(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -111,7 +111,7 @@ func (s ArrSet[K]) Add(key K) {
 		ckb := ckey.KeyBytes()
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -185,7 +185,7 @@ func (s ArrSet[K]) Del(key K) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/bytes_map.go b/bytes_map.go
index 6653bab..3ce6011 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -93,7 +93,7 @@ func (m BytesMap[V]) Ptr(key []byte) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -125,7 +125,7 @@ func (m BytesMap[V]) Set(key []byte, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -152,7 +152,7 @@ func (m BytesMap[V]) Set(key []byte, value V) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -230,7 +230,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -257,7 +257,7 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -339,7 +339,7 @@ func (m BytesMap[V]) Del(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/bytes_set.go b/bytes_set.go
index 1300b8a..4d1dcf2 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -56,7 +56,7 @@ func (s BytesSet) Has(key []byte) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -85,7 +85,7 @@ func (s BytesSet) Add(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -111,7 +111,7 @@ func (s BytesSet) Add(key []byte) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -184,7 +184,7 @@ func (s BytesSet) Del(key []byte) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/generic_map.go b/generic_map.go
index bbfb469..4050b1a 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -95,7 +95,7 @@ func (m Map[K, V]) Val(key K) (value V) {
 // Ptr returns a pointer to the value for key, or nil if the key is missing.
 // The value may be updated through the returned pointer.
 func (m Map[K, V]) Ptr(key K) *V {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -122,7 +122,7 @@ func (m Map[K, V]) Ptr(key K) *V {
 
 // Set adds or updates the value for key.
 func (m Map[K, V]) Set(key K, value V) {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -211,7 +211,7 @@ func (m Map[K, V]) Set(key K, value V) {
 // Mod modifies the value for key using the mod callback. The mod callback receives
 // a pointer to the existing or new value for key, and true if the key existed.
 func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -303,7 +303,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 // Del deletes the value for key.
 func (m Map[K, V]) Del(key K) {
 	path := make([]pathLink, 0, 12)
-	hd, l, d := key.Hash(m.seed, 0), &m.link, uint8(0)
+	hd, l, d := key.Hash(m.seed, 0), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/generic_set.go b/generic_set.go
index bbba72e..70fefb3 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -50,7 +50,7 @@ func (s Set[K]) Dep() float64 { return s.root.Dep() }
 
 // Has returns true if s contains key.
 func (s Set[K]) Has(key K) bool {
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -74,7 +74,7 @@ func (s Set[K]) Has(key K) bool {
 
 // Add adds key to s.
 func (s Set[K]) Add(key K) {
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -162,7 +162,7 @@ func (s Set[K]) Add(key K) {
 // Del deletes key from s.
 func (s Set[K]) Del(key K) {
 	path := make([]pathLink, 0, 12)
-	hd, l, d := key.Hash(s.seed, 0), &s.link, uint8(0)
+	hd, l, d := key.Hash(s.seed, 0), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/int_map.go b/int_map.go
index 1b33754..a1dbce1 100644
--- a/int_map.go
+++ b/int_map.go
@@ -100,7 +100,7 @@ func (m IntMap[V]) Ptr(key IntKey) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -132,7 +132,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -160,7 +160,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -241,7 +241,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -269,7 +269,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -353,7 +353,7 @@ func (m IntMap[V]) Del(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/int_set.go b/int_set.go
index 7d67f19..33a4ff5 100644
--- a/int_set.go
+++ b/int_set.go
@@ -55,7 +55,7 @@ func (s IntSet) Has(key IntKey) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -84,7 +84,7 @@ func (s IntSet) Add(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -110,7 +110,7 @@ func (s IntSet) Add(key IntKey) {
 		ckb := intbytes(ckey)
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -188,7 +188,7 @@ func (s IntSet) Del(key IntKey) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.Write(kb[:])
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/string_map.go b/string_map.go
index 8ad9e0d..223c1e6 100644
--- a/string_map.go
+++ b/string_map.go
@@ -91,7 +91,7 @@ func (m StringMap[V]) Ptr(key string) *V {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -122,7 +122,7 @@ func (m StringMap[V]) Set(key string, value V) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -149,7 +149,7 @@ func (m StringMap[V]) Set(key string, value V) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -222,7 +222,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -249,7 +249,7 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(m.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -325,7 +325,7 @@ func (m StringMap[V]) Del(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(m.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &m.link, uint8(0)
+	hd, l, d := hw.Sum64(), &m.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
diff --git a/string_set.go b/string_set.go
index 42b7f29..5693fe9 100644
--- a/string_set.go
+++ b/string_set.go
@@ -54,7 +54,7 @@ func (s StringSet) Has(key string) bool {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -82,7 +82,7 @@ func (s StringSet) Add(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
@@ -108,7 +108,7 @@ func (s StringSet) Add(key string) {
 		// rehash conflicting key
 		var chw maphash.Hash
 		chw.SetSeed(s.seed)
-		for cd := uint8(0); cd <= d; cd += (64 / 4) {
+		for cd := uint(0); cd <= d; cd += (64 / 4) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
@@ -181,7 +181,7 @@ func (s StringSet) Del(key string) {
 	var hw maphash.Hash
 	hw.SetSeed(s.seed)
 	hw.WriteString(key)
-	hd, l, d := hw.Sum64(), &s.link, uint8(0)
+	hd, l, d := hw.Sum64(), &s.link, uint(0)
 	radix := uint8(hd & 0xF)
 	bit, idx := uint32(1)<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 	for l.pmap&bit != 0 { // item present
-- 
2.43.0

