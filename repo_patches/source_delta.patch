From 470e2cdd0c15f8775b8a4b039e6823c04bbc3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 1/8] fix: store the value when ArrMap.Set splits a conflicting
 slot

---
 arr_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arr_map.go b/arr_map.go
index 01fda75..f324cc2 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -167,7 +167,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
+				kv := &arrkv[K, V]{value, key}
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From 91454e8691a0510c2629b9bc9a7fbe9c4caace19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 2/8] fix: BytesSet.Del must delete the matching key and ignore
 others

---
 bytes_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes_set.go b/bytes_set.go
index c0027fb..7fac452 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -203,7 +203,7 @@ func (s BytesSet) Del(key []byte) {
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			continue
 		}
-		if bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
+		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
 			return
 		}
 		l.pmap &^= bit
-- 
2.43.0


From 0a1982c592d21a24dac359441d3c1fc14c1d089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 3/8] fix: rehash the conflicting key at the current depth in
 Map and Set

---
 generic_map.go | 4 ++--
 generic_set.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index d93eb22..70ad36d 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -146,7 +146,7 @@ func (m Map[K, V]) Set(key K, value V) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -235,7 +235,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			return
 		}
 		// rehash conflicting key
-		chd := key.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
diff --git a/generic_set.go b/generic_set.go
index ec8f206..d862c20 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -97,7 +97,7 @@ func (s Set[K]) Add(key K) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(s.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(s.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		s.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From 83ad93afa5af6be92589ccb279a3436e05da5662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 4/8] fix: clear inline key bits when an int key becomes a
 branch

---
 int_map.go | 2 ++
 int_set.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/int_map.go b/int_map.go
index 6eeb39c..4d416e2 100644
--- a/int_map.go
+++ b/int_map.go
@@ -193,6 +193,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear inline key bits
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
@@ -302,6 +303,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear inline key bits
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
diff --git a/int_set.go b/int_set.go
index 7c6e44a..9c55bf4 100644
--- a/int_set.go
+++ b/int_set.go
@@ -144,6 +144,7 @@ func (s IntSet) Add(key IntKey) {
 				return // key added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear inline key bits
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
-- 
2.43.0


From 96427f561f2e29820817e24736f55d74012cf33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 5/8] fix: run the Mod callback before restructuring a
 conflicting slot

---
 arr_map.go     | 4 ++--
 bytes_map.go   | 4 ++--
 generic_map.go | 4 ++--
 int_map.go     | 4 ++--
 string_map.go  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index f324cc2..5644227 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -251,6 +251,8 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		kv := &arrkv[K, V]{k: key}
+		mod(&kv.v, false) // must not observe (or panic within) a partial update
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -269,8 +271,6 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/bytes_map.go b/bytes_map.go
index 830804d..1a03713 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -267,6 +267,8 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			item.ptr = unsafe.Pointer(kv)
 			return
 		}
+		kv := &byteskv[V]{k: key}
+		mod(&kv.v, false) // must not observe (or panic within) a partial update
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -285,8 +287,6 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &byteskv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/generic_map.go b/generic_map.go
index 70ad36d..f409962 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -236,6 +236,8 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
+		kv := &kv[K, V]{k: key}
+		mod(&kv.v, false) // must not observe (or panic within) a partial update
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -252,8 +254,6 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &kv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/int_map.go b/int_map.go
index 4d416e2..16d60bc 100644
--- a/int_map.go
+++ b/int_map.go
@@ -271,6 +271,8 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		val := &intkv[V]{}
+		mod(&val.v, false) // must not observe (or panic within) a partial update
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -289,8 +291,6 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				val := &intkv[V]{}
-				mod(&val.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0] = link{ptr: unsafe.Pointer(val), pmap: uint32(key), tmap: uint32(key >> 32)}
 					pair[1] = link{ptr: unsafe.Pointer(cval), pmap: uint32(ckey), tmap: uint32(ckey >> 32)}
diff --git a/string_map.go b/string_map.go
index 2470a61..6caa9b9 100644
--- a/string_map.go
+++ b/string_map.go
@@ -253,6 +253,8 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		kv := &strkv[V]{k: key}
+		mod(&kv.v, false) // must not observe (or panic within) a partial update
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -271,8 +273,6 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &strkv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From 72e0ba2ab86a1e936cc6241b99cec774787a4208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 6/8] fix: do not truncate the iter count in HashBytes

---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index f409962..ce6974b 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -43,7 +43,7 @@ type Key[K any] interface {
 func HashBytes(key []byte, seed maphash.Seed, iter uint) uint64 {
 	var hw maphash.Hash
 	hw.SetSeed(seed)
-	for i := uint8(0); i <= uint8(iter); i++ {
+	for i := uint(0); i <= iter; i++ {
 		hw.Write(key)
 	}
 	return hw.Sum64()
-- 
2.43.0


From 020ebfe3c50321bcb64da6d0fcf3ede15be83510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 7/8] fix: implement Equal for Int so that it may be used as a
 generic key

---
 int_map.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/int_map.go b/int_map.go
index 16d60bc..7add1b4 100644
--- a/int_map.go
+++ b/int_map.go
@@ -31,6 +31,8 @@ import (
 // Int may be used as the key type of a generic Map[Int, V].
 type Int int
 
+func (i Int) Equal(i2 Int) bool { return i == i2 }
+
 func (i Int) Hash(seed maphash.Seed, iter uint) uint64 {
 	b := intbytes(IntKey(i))
 	var hw maphash.Hash
-- 
2.43.0


From 55861c75ba79e551f94d9238dd948febcd0ff398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 8/8] fix: do not retain deleted entries in vacated slots or
 the scratch path

---
 amt.go         |  5 +++++
 arr_map.go     | 10 ++++++----
 arr_set.go     | 10 ++++++----
 bytes_map.go   | 10 ++++++----
 bytes_set.go   | 10 ++++++----
 generic_map.go | 10 ++++++----
 generic_set.go | 10 ++++++----
 int_map.go     | 10 ++++++----
 int_set.go     | 10 ++++++----
 string_map.go  | 10 ++++++----
 string_set.go  | 10 ++++++----
 11 files changed, 65 insertions(+), 40 deletions(-)

diff --git a/amt.go b/amt.go
index 501f94e..9772e33 100644
--- a/amt.go
+++ b/amt.go
@@ -75,6 +75,11 @@ func newRoot() *root {
 	return r
 }
 
+// clearPath drops all links referenced by the scratch path, to prevent leaks.
+func (r *root) clearPath() {
+	r.path = [12]pathLink{}
+}
+
 // Len returns the number of values in r.
 func (r *root) Len() uint {
 	if r == nil {
diff --git a/arr_map.go b/arr_map.go
index 5644227..90f8598 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -344,6 +344,7 @@ func (m ArrMap[K, V]) Del(key K) {
 			continue
 		}
 		if (*arrkv[K, V])(item.ptr).k != key { // key missing
+			m.clearPath()
 			return
 		}
 		l.pmap &^= bit
@@ -376,6 +377,9 @@ func (m ArrMap[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -387,12 +391,10 @@ func (m ArrMap[K, V]) Del(key K) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		m.clearPath()
 		return // item removed
 	}
+	m.clearPath() // item missing
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/arr_set.go b/arr_set.go
index c19eccf..a31f522 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -205,6 +205,7 @@ func (s ArrSet[K]) Del(key K) {
 			continue
 		}
 		if (*arrkv[K, struct{}])(item.ptr).k != key { // key missing
+			s.clearPath()
 			return
 		}
 		l.pmap &^= bit
@@ -237,6 +238,9 @@ func (s ArrSet[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -248,12 +252,10 @@ func (s ArrSet[K]) Del(key K) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		s.clearPath()
 		return // item removed
 	}
+	s.clearPath() // item missing
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/bytes_map.go b/bytes_map.go
index 1a03713..e392be1 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -359,6 +359,7 @@ func (m BytesMap[V]) Del(key []byte) {
 			continue
 		}
 		if !bytes.Equal((*byteskv[V])(item.ptr).k, key) { // key missing
+			m.clearPath()
 			return
 		}
 		l.pmap &^= bit
@@ -391,6 +392,9 @@ func (m BytesMap[V]) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -402,12 +406,10 @@ func (m BytesMap[V]) Del(key []byte) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		m.clearPath()
 		return // item removed
 	}
+	m.clearPath() // item missing
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/bytes_set.go b/bytes_set.go
index 7fac452..df3e73f 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -204,6 +204,7 @@ func (s BytesSet) Del(key []byte) {
 			continue
 		}
 		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
+			s.clearPath()
 			return
 		}
 		l.pmap &^= bit
@@ -236,6 +237,9 @@ func (s BytesSet) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -247,12 +251,10 @@ func (s BytesSet) Del(key []byte) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		s.clearPath()
 		return // item removed
 	}
+	s.clearPath() // item missing
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/generic_map.go b/generic_map.go
index ce6974b..ca59564 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -322,6 +322,7 @@ func (m Map[K, V]) Del(key K) {
 			continue
 		}
 		if !key.Equal((*kv[K, V])(item.ptr).k) { // key missing
+			m.clearPath()
 			return
 		}
 		l.pmap &^= bit
@@ -354,6 +355,9 @@ func (m Map[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -365,12 +369,10 @@ func (m Map[K, V]) Del(key K) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		m.clearPath()
 		return // item removed
 	}
+	m.clearPath() // item missing
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/generic_set.go b/generic_set.go
index d862c20..c224d24 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -181,6 +181,7 @@ func (s Set[K]) Del(key K) {
 			continue
 		}
 		if !key.Equal((*kv[K, struct{}])(item.ptr).k) { // key missing
+			s.clearPath()
 			return
 		}
 		l.pmap &^= bit
@@ -213,6 +214,9 @@ func (s Set[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -224,12 +228,10 @@ func (s Set[K]) Del(key K) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		s.clearPath()
 		return // item removed
 	}
+	s.clearPath() // item missing
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/int_map.go b/int_map.go
index 7add1b4..4015bd8 100644
--- a/int_map.go
+++ b/int_map.go
@@ -373,6 +373,7 @@ func (m IntMap[V]) Del(key IntKey) {
 			continue
 		}
 		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key { // key missing
+			m.clearPath()
 			return
 		}
 		l.pmap &^= bit
@@ -405,6 +406,9 @@ func (m IntMap[V]) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -416,12 +420,10 @@ func (m IntMap[V]) Del(key IntKey) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		m.clearPath()
 		return // item removed
 	}
+	m.clearPath() // item missing
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/int_set.go b/int_set.go
index 9c55bf4..7b71d41 100644
--- a/int_set.go
+++ b/int_set.go
@@ -208,6 +208,7 @@ func (s IntSet) Del(key IntKey) {
 			continue
 		}
 		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key { // key missing
+			s.clearPath()
 			return
 		}
 		l.pmap &^= bit
@@ -240,6 +241,9 @@ func (s IntSet) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -251,12 +255,10 @@ func (s IntSet) Del(key IntKey) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		s.clearPath()
 		return // item removed
 	}
+	s.clearPath() // item missing
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/string_map.go b/string_map.go
index 6caa9b9..9c2b150 100644
--- a/string_map.go
+++ b/string_map.go
@@ -345,6 +345,7 @@ func (m StringMap[V]) Del(key string) {
 			continue
 		}
 		if (*strkv[V])(item.ptr).k != key { // key missing
+			m.clearPath()
 			return
 		}
 		l.pmap &^= bit
@@ -377,6 +378,9 @@ func (m StringMap[V]) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -388,12 +392,10 @@ func (m StringMap[V]) Del(key string) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		m.clearPath()
 		return // item removed
 	}
+	m.clearPath() // item missing
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/string_set.go b/string_set.go
index 4b7da97..1a827ad 100644
--- a/string_set.go
+++ b/string_set.go
@@ -201,6 +201,7 @@ func (s StringSet) Del(key string) {
 			continue
 		}
 		if (*strkv[struct{}])(item.ptr).k != key { // key missing
+			s.clearPath()
 			return
 		}
 		l.pmap &^= bit
@@ -233,6 +234,9 @@ func (s StringSet) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -244,12 +248,10 @@ func (s StringSet) Del(key string) {
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
 		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
+		s.clearPath()
 		return // item removed
 	}
+	s.clearPath() // item missing
 }
 
 // All ranges over keys in s, applying the do callback to each key until
-- 
2.43.0

