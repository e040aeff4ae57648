From ce07c69542931bcf76352d010beb03b6c95240ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:51 +0000
Subject: [PATCH 01/46] fix: deque keeps wrapped elements when its buffer is
 reallocated

Growing (or shrinking) a deque whose data wraps copied the wrapped part over
the start of the new buffer instead of after the first part.
---
 stl/deque.gp_int.go | 6 +++---
 stl/gp/deque.gp     | 6 +++---
 stl/gp/deque.gp.go  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/deque.gp_int.go b/stl/deque.gp_int.go
index 92f337f..c8b0dd8 100644
--- a/stl/deque.gp_int.go
+++ b/stl/deque.gp_int.go
@@ -81,7 +81,7 @@ func (this *IntDeque) PushFront(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -101,7 +101,7 @@ func (this *IntDeque) PushBack(v int) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -156,7 +156,7 @@ func (this *IntDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp b/stl/gp/deque.gp
index eddd2c8..f3f7e1b 100644
--- a/stl/gp/deque.gp
+++ b/stl/gp/deque.gp
@@ -85,7 +85,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushFront(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) PushBack(v <VALUE_TYPE>) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -160,7 +160,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/deque.gp.go b/stl/gp/deque.gp.go
index e1b76af..0e9e7d2 100644
--- a/stl/gp/deque.gp.go
+++ b/stl/gp/deque.gp.go
@@ -85,7 +85,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushFront(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -105,7 +105,7 @@ func (this *GOGPGlobalNamePrefixDeque) PushBack(v GOGPValueType) (ok bool) {
 			d := this.d
 			this.newBuf(oldCap * 2)
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
@@ -160,7 +160,7 @@ func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From 19db1bf3cbbb88b3d9a2cf00ac50eb38d5a93c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:51 +0000
Subject: [PATCH 02/46] fix: deque Shrink reports whether it shrank

The result was shadowed, so Shrink always returned false.
---
 stl/deque.gp_int.go | 2 +-
 stl/gp/deque.gp     | 2 +-
 stl/gp/deque.gp.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/deque.gp_int.go b/stl/deque.gp_int.go
index c8b0dd8..79389a7 100644
--- a/stl/deque.gp_int.go
+++ b/stl/deque.gp_int.go
@@ -147,7 +147,7 @@ func (this *IntDeque) Back() (back int, ok bool) {
 func (this *IntDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
diff --git a/stl/gp/deque.gp b/stl/gp/deque.gp
index f3f7e1b..0296e60 100644
--- a/stl/gp/deque.gp
+++ b/stl/gp/deque.gp
@@ -151,7 +151,7 @@ func (this *<GLOBAL_NAME_PREFIX>Deque) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Deque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
diff --git a/stl/gp/deque.gp.go b/stl/gp/deque.gp.go
index 0e9e7d2..c0434be 100644
--- a/stl/gp/deque.gp.go
+++ b/stl/gp/deque.gp.go
@@ -151,7 +151,7 @@ func (this *GOGPGlobalNamePrefixDeque) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixDeque) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
 		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
-- 
2.43.0


From 7e47894e9faf8d8de721d9a5250349f904a5d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:51 +0000
Subject: [PATCH 03/46] fix: queue Push grows whenever the buffer is full

The buffer was only grown when it filled up exactly at the end of the
buffer; otherwise tail met head and the whole content was dropped. The wrapped
part was also copied over the start of the new buffer.
---
 stl/gp/queue.gp     | 16 ++++++++--------
 stl/gp/queue.gp.go  | 16 ++++++++--------
 stl/queue.gp_int.go | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index 23094be..81d9359 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -78,14 +78,14 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Push(v <VALUE_TYPE>) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index 1a4fc92..b95af18 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -175,14 +175,14 @@ func (this *GOGPGlobalNamePrefixQueue) Push(v GOGPValueType) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 6e1c95e..84fe823 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -72,14 +72,14 @@ func (this *IntQueue) Push(v int) (ok bool) {
 		this.d[this.tail] = v
 		if this.tail++; this.tail >= this.Cap() {
 			this.tail = 0
-			if this.tail == this.head { //tail catch up head, buffer full
-				oldCap := this.Cap()
-				d := this.d
-				this.newBuf(oldCap * 2)
-				h := copy(this.d, d[this.head:])
-				t := copy(this.d[:h], d[:this.tail])
-				this.head, this.tail = 0, h+t
-			}
+		}
+		if this.tail == this.head { //tail catch up head, buffer full
+			oldCap := this.Cap()
+			d := this.d
+			this.newBuf(oldCap * 2)
+			h := copy(this.d, d[this.head:])
+			t := copy(this.d[h:], d[:this.tail])
+			this.head, this.tail = 0, h+t
 		}
 	}
 	return
-- 
2.43.0


From d42b9ae089918bca589094b42625ab4b62683046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:51 +0000
Subject: [PATCH 04/46] fix: queue Shrink keeps every element and reports
 whether it shrank

The new buffer was half the size of the content, the wrapped part was copied
over the first part and the result was shadowed.
---
 stl/gp/queue.gp     | 6 +++---
 stl/gp/queue.gp.go  | 6 +++---
 stl/queue.gp_int.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/gp/queue.gp b/stl/gp/queue.gp
index 81d9359..9caef41 100644
--- a/stl/gp/queue.gp
+++ b/stl/gp/queue.gp
@@ -126,16 +126,16 @@ func (this *<GLOBAL_NAME_PREFIX>Queue) Back() (back <VALUE_TYPE>, ok bool) {
 func (this *<GLOBAL_NAME_PREFIX>Queue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/gp/queue.gp.go b/stl/gp/queue.gp.go
index b95af18..89860a2 100644
--- a/stl/gp/queue.gp.go
+++ b/stl/gp/queue.gp.go
@@ -223,16 +223,16 @@ func (this *GOGPGlobalNamePrefixQueue) Back() (back GOGPValueType, ok bool) {
 func (this *GOGPGlobalNamePrefixQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
diff --git a/stl/queue.gp_int.go b/stl/queue.gp_int.go
index 84fe823..514955b 100644
--- a/stl/queue.gp_int.go
+++ b/stl/queue.gp_int.go
@@ -120,16 +120,16 @@ func (this *IntQueue) Back() (back int, ok bool) {
 func (this *IntQueue) Shrink() (ok bool) {
 	oldCap := this.Cap()
 	oldSize := this.Size()
-	if ok := oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
+	if ok = oldCap > 8 && oldCap >= 3*oldSize; ok { //leave at least 8 elem space
 		d := this.d
-		this.newBuf(oldSize / 2)
+		this.newBuf(oldCap / 2)
 		if this.tail >= this.head {
 			copy(this.d, d[this.head:this.tail])
 			this.tail -= this.head
 			this.head = 0
 		} else {
 			h := copy(this.d, d[this.head:])
-			t := copy(this.d[:h], d[:this.tail])
+			t := copy(this.d[h:], d[:this.tail])
 			this.head, this.tail = 0, h+t
 		}
 	}
-- 
2.43.0


From c3dd9df0a97bc7f980046cf7941b85a2b9d343ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:51 +0000
Subject: [PATCH 05/46] fix: sort slice Insert inserts instead of overwriting
 the element at idx

---
 fs/sort_slice.gp_#filehashtreenodef199.go | 6 +++---
 stl/gp/sort_slice.gp                      | 6 +++---
 stl/gp/sort_slice.gp.go                   | 6 +++---
 stl/sort_slice.gp_#inttreenodeb60b.go     | 6 +++---
 stl/sort_slice.gp_int.go                  | 6 +++---
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 2c83af8..0b34498 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -70,9 +70,9 @@ func (this *FileHashSortSlice) Push(v *FileHashTreeNode) int {
 //insert
 func (this *FileHashSortSlice) Insert(v *FileHashTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 35e2942..1601ae9 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -76,9 +76,9 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Push(v <VALUE_TYPE>) int {
 //insert
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Insert(v <VALUE_TYPE>, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index ac6a660..d0c1010 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -173,9 +173,9 @@ func (this *GOGPGlobalNamePrefixSortSlice) Push(v GOGPValueType) int {
 //insert
 func (this *GOGPGlobalNamePrefixSortSlice) Insert(v GOGPValueType, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 8700512..2318223 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -70,9 +70,9 @@ func (this *IntTreeNodeSortSlice) Push(v *IntTreeNode) int {
 //insert
 func (this *IntTreeNodeSortSlice) Insert(v *IntTreeNode, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index 65e0f3c..c7e8bb2 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -70,9 +70,9 @@ func (this *IntSortSlice) Push(v int) int {
 //insert
 func (this *IntSortSlice) Insert(v int, idx int) int {
 	if idx >= 0 && idx < this.Len() {
-		right := this.d[idx+1:]
-		this.d = append(this.d[:idx], v)
-		this.d = append(this.d, right...)
+		this.d = append(this.d, v)
+		copy(this.d[idx+1:], this.d[idx:])
+		this.d[idx] = v
 	} else {
 		this.d = append(this.d, v)
 	}
-- 
2.43.0


From 4cd3dffbd839d74fae46c5f0b0e690b42d278a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:51 +0000
Subject: [PATCH 06/46] fix: sort slice Pop on an empty slice reports ok=false
 instead of panicking

---
 fs/sort_slice.gp_#filehashtreenodef199.go | 2 +-
 stl/gp/sort_slice.gp                      | 2 +-
 stl/gp/sort_slice.gp.go                   | 2 +-
 stl/sort_slice.gp_#inttreenodeb60b.go     | 2 +-
 stl/sort_slice.gp_int.go                  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fs/sort_slice.gp_#filehashtreenodef199.go b/fs/sort_slice.gp_#filehashtreenodef199.go
index 0b34498..5f81b1e 100644
--- a/fs/sort_slice.gp_#filehashtreenodef199.go
+++ b/fs/sort_slice.gp_#filehashtreenodef199.go
@@ -92,8 +92,8 @@ func (this *FileHashSortSlice) Remove(idx int) (r *FileHashTreeNode, ok bool) {
 func (this *FileHashSortSlice) Pop() (r *FileHashTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp b/stl/gp/sort_slice.gp
index 1601ae9..caf9a03 100644
--- a/stl/gp/sort_slice.gp
+++ b/stl/gp/sort_slice.gp
@@ -98,8 +98,8 @@ func (this *<GLOBAL_NAME_PREFIX>SortSlice) Remove(idx int) (r <VALUE_TYPE>, ok b
 func (this *<GLOBAL_NAME_PREFIX>SortSlice) Pop() (r <VALUE_TYPE>, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/gp/sort_slice.gp.go b/stl/gp/sort_slice.gp.go
index d0c1010..dc608e2 100644
--- a/stl/gp/sort_slice.gp.go
+++ b/stl/gp/sort_slice.gp.go
@@ -195,8 +195,8 @@ func (this *GOGPGlobalNamePrefixSortSlice) Remove(idx int) (r GOGPValueType, ok
 func (this *GOGPGlobalNamePrefixSortSlice) Pop() (r GOGPValueType, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_#inttreenodeb60b.go b/stl/sort_slice.gp_#inttreenodeb60b.go
index 2318223..95d20e4 100644
--- a/stl/sort_slice.gp_#inttreenodeb60b.go
+++ b/stl/sort_slice.gp_#inttreenodeb60b.go
@@ -92,8 +92,8 @@ func (this *IntTreeNodeSortSlice) Remove(idx int) (r *IntTreeNode, ok bool) {
 func (this *IntTreeNodeSortSlice) Pop() (r *IntTreeNode, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
diff --git a/stl/sort_slice.gp_int.go b/stl/sort_slice.gp_int.go
index c7e8bb2..d6b02bb 100644
--- a/stl/sort_slice.gp_int.go
+++ b/stl/sort_slice.gp_int.go
@@ -92,8 +92,8 @@ func (this *IntSortSlice) Remove(idx int) (r int, ok bool) {
 func (this *IntSortSlice) Pop() (r int, ok bool) {
 	if ok = len(this.d) > 0; ok {
 		r = (this.d)[len(this.d)-1]
+		this.d = (this.d)[:len(this.d)-1]
 	}
-	this.d = (this.d)[:len(this.d)-1]
 	return
 }
 
-- 
2.43.0


From 41644397de6b4ae8aa7f91a7c557b17529382a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 07/46] fix: heap Reverse on an empty slice is a no-op instead
 of a panic

---
 stl/gp/heap.gp     | 2 +-
 stl/gp/heap.gp.go  | 2 +-
 stl/heap.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/heap.gp b/stl/gp/heap.gp
index b98a3d5..2e45815 100644
--- a/stl/gp/heap.gp
+++ b/stl/gp/heap.gp
@@ -140,7 +140,7 @@ func (this *<GLOBAL_NAME_PREFIX>Heap) MakeHeap(b []<VALUE_TYPE>) {
 //reverse order of b
 func (this *<GLOBAL_NAME_PREFIX>Heap) Reverse(b []<VALUE_TYPE>) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := l / 2; i >= 0 && l > 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/gp/heap.gp.go b/stl/gp/heap.gp.go
index 90dd76d..25dc7d2 100644
--- a/stl/gp/heap.gp.go
+++ b/stl/gp/heap.gp.go
@@ -237,7 +237,7 @@ func (this *GOGPGlobalNamePrefixHeap) MakeHeap(b []GOGPValueType) {
 //reverse order of b
 func (this *GOGPGlobalNamePrefixHeap) Reverse(b []GOGPValueType) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := l / 2; i >= 0 && l > 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
diff --git a/stl/heap.gp_int.go b/stl/heap.gp_int.go
index 92eff7a..bc81373 100644
--- a/stl/heap.gp_int.go
+++ b/stl/heap.gp_int.go
@@ -123,7 +123,7 @@ func (this *IntHeap) MakeHeap(b []int) {
 //reverse order of b
 func (this *IntHeap) Reverse(b []int) {
 	l := len(b) - 1
-	for i := l / 2; i >= 0; i-- {
+	for i := l / 2; i >= 0 && l > 0; i-- {
 		b[i], b[l-i] = b[l-i], b[i]
 	}
 }
-- 
2.43.0


From 22159093fae4e90f02afc31edd1b634992553d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 08/46] fix: list InsertAfter links the following node back to
 the new one

---
 stl/gp/list.gp     | 3 ++-
 stl/gp/list.gp.go  | 3 ++-
 stl/list.gp_int.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index d6f28f6..7beaa97 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -244,9 +244,10 @@ func (this *<GLOBAL_NAME_PREFIX>List) InsertBefore(node, mark *<GLOBAL_NAME_PREF
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (n *<GLOBAL_NAME_PREFIX>ListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index ca7275a..3a4fc3d 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -341,9 +341,10 @@ func (this *GOGPGlobalNamePrefixList) InsertBefore(node, mark *GOGPGlobalNamePre
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertAfter(node, mark *GOGPGlobalNamePrefixListNode) (n *GOGPGlobalNamePrefixListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 7009afe..32de7e1 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -238,9 +238,10 @@ func (this *IntList) InsertBefore(node, mark *IntListNode) (n *IntListNode) {
 }
 
 func (this *IntList) InsertAfter(node, mark *IntListNode) (n *IntListNode) {
-	if n = node; node != nil && mark != nil {
+	if n = node; node != nil && mark != nil && node != mark {
 		n.next = mark.next
 		n.prev = mark
+		mark.next.prev = n
 		mark.next = n
 	}
 	return
-- 
2.43.0


From 7f5642e2e940d41b873cbda9361199aca81351f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 09/46] fix: list InsertFrontList puts every spliced element in
 front

Only the last element of the other list was rotated to the front.
---
 stl/gp/list.gp     | 6 +++---
 stl/gp/list.gp.go  | 6 +++---
 stl/list.gp_int.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 7beaa97..87e71c8 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -191,9 +191,9 @@ func (this *<GLOBAL_NAME_PREFIX>List) PopBack() (v <VALUE_TYPE>, ok bool) {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) InsertFrontList(other *<GLOBAL_NAME_PREFIX>List) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 3a4fc3d..c123621 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -288,9 +288,9 @@ func (this *GOGPGlobalNamePrefixList) PopBack() (v GOGPValueType, ok bool) {
 }
 
 func (this *GOGPGlobalNamePrefixList) InsertFrontList(other *GOGPGlobalNamePrefixList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 32de7e1..b624eb2 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -185,9 +185,9 @@ func (this *IntList) PopBack() (v int, ok bool) {
 }
 
 func (this *IntList) InsertFrontList(other *IntList) (ok bool) {
-	rotate := !this.Empty()
-	if ok = this.InsertBackList(other); ok && rotate {
-		this.RotateBackward()
+	front := other.Front()
+	if ok = this.InsertBackList(other); ok {
+		this.head = front
 	}
 	return
 }
-- 
2.43.0


From 439efc60e35a96ec1869ac0d15e7b08d17fb2554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 10/46] fix: list MoveBack and MoveFront work on the head node

Moving the head linked it to itself and cut the list.
---
 stl/gp/list.gp     | 10 +++-------
 stl/gp/list.gp.go  | 10 +++-------
 stl/list.gp_int.go | 10 +++-------
 3 files changed, 9 insertions(+), 21 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 87e71c8..e7173d6 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -300,13 +300,9 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveFront(node *<GLOBAL_NAME_PREFIX>ListNo
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
 	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
-		node.next.prev = node.prev
-		node.prev.next = node.next
-		node.next = this.head
-		node.prev = this.head.prev
-		this.head.prev.next = node
-		this.head.prev = node
-		r = node
+		if r = this.Remove(node); r != nil {
+			this.InsertBack(node)
+		}
 	}
 	return
 }
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index c123621..570dedd 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -397,13 +397,9 @@ func (this *GOGPGlobalNamePrefixList) MoveFront(node *GOGPGlobalNamePrefixListNo
 
 func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
 	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
-		node.next.prev = node.prev
-		node.prev.next = node.next
-		node.next = this.head
-		node.prev = this.head.prev
-		this.head.prev.next = node
-		this.head.prev = node
-		r = node
+		if r = this.Remove(node); r != nil {
+			this.InsertBack(node)
+		}
 	}
 	return
 }
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index b624eb2..1f95756 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -294,13 +294,9 @@ func (this *IntList) MoveFront(node *IntListNode) (r *IntListNode) {
 
 func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
 	if node != nil && node.next != nil && node.prev != nil && node.next != node { //bug:node is back?
-		node.next.prev = node.prev
-		node.prev.next = node.next
-		node.next = this.head
-		node.prev = this.head.prev
-		this.head.prev.next = node
-		this.head.prev = node
-		r = node
+		if r = this.Remove(node); r != nil {
+			this.InsertBack(node)
+		}
 	}
 	return
 }
-- 
2.43.0


From 3e04be35d41e3a6fb893abf80dc4198cce84aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 11/46] fix: list MoveBefore the head and MoveAfter the back
 move the node

The list is a ring, so the back node is linked before the head: a node moved
before the head landed at the back, and moving the back before the head, or the
head after the back, did nothing.
---
 stl/gp/list.gp     | 9 +++------
 stl/gp/list.gp.go  | 9 +++------
 stl/list.gp_int.go | 9 +++------
 3 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index e7173d6..86ef2a4 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -308,19 +308,16 @@ func (this *<GLOBAL_NAME_PREFIX>List) MoveBack(node *<GLOBAL_NAME_PREFIX>ListNod
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveBefore(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
-			node.next = mark.prev.next
-			node.prev = mark.prev
-			mark.prev.next = node
-			mark.prev = node
+			this.InsertBefore(node, mark)
 		}
 	}
 	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) MoveAfter(node, mark *<GLOBAL_NAME_PREFIX>ListNode) (r *<GLOBAL_NAME_PREFIX>ListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 570dedd..8e59947 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -405,19 +405,16 @@ func (this *GOGPGlobalNamePrefixList) MoveBack(node *GOGPGlobalNamePrefixListNod
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveBefore(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
-			node.next = mark.prev.next
-			node.prev = mark.prev
-			mark.prev.next = node
-			mark.prev = node
+			this.InsertBefore(node, mark)
 		}
 	}
 	return
 }
 
 func (this *GOGPGlobalNamePrefixList) MoveAfter(node, mark *GOGPGlobalNamePrefixListNode) (r *GOGPGlobalNamePrefixListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 1f95756..f6bebd1 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -302,19 +302,16 @@ func (this *IntList) MoveBack(node *IntListNode) (r *IntListNode) {
 }
 
 func (this *IntList) MoveBefore(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && node.next != mark {
+	if node != nil && mark != nil && node != mark && (node.next != mark || mark == this.head) {
 		if r = this.Remove(node); r != nil {
-			node.next = mark.prev.next
-			node.prev = mark.prev
-			mark.prev.next = node
-			mark.prev = node
+			this.InsertBefore(node, mark)
 		}
 	}
 	return
 }
 
 func (this *IntList) MoveAfter(node, mark *IntListNode) (r *IntListNode) {
-	if node != nil && mark != nil && node != mark && mark.next != node {
+	if node != nil && mark != nil && node != mark && (mark.next != node || node == this.head) {
 		if r = this.Remove(node); r != nil {
 			node.next = mark.next
 			node.prev = mark
-- 
2.43.0


From 1ef6bab126cc19ed7f3e47bfc4fbaded2a4cdb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 12/46] fix: list Reverse keeps every element

The visitor followed links that had already been rewritten, so only the first
element survived.
---
 stl/gp/list.gp     | 6 +++---
 stl/gp/list.gp.go  | 6 +++---
 stl/list.gp_int.go | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index 86ef2a4..d8b4cb8 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -333,10 +333,10 @@ func (this *<GLOBAL_NAME_PREFIX>List) Empty() bool {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reverse() {
-	v := this.Visitor()
+	old := *this
 	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	for n := old.RemoveFront(); n != nil; n = old.RemoveFront() {
+		this.InsertFront(n)
 	}
 }
 
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index 8e59947..ac686ea 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -430,10 +430,10 @@ func (this *GOGPGlobalNamePrefixList) Empty() bool {
 }
 
 func (this *GOGPGlobalNamePrefixList) Reverse() {
-	v := this.Visitor()
+	old := *this
 	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	for n := old.RemoveFront(); n != nil; n = old.RemoveFront() {
+		this.InsertFront(n)
 	}
 }
 
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index f6bebd1..50fa66e 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -327,10 +327,10 @@ func (this *IntList) Empty() bool {
 }
 
 func (this *IntList) Reverse() {
-	v := this.Visitor()
+	old := *this
 	this.Clear()
-	for v.Next() {
-		this.InsertFront(v.Get())
+	for n := old.RemoveFront(); n != nil; n = old.RemoveFront() {
+		this.InsertFront(n)
 	}
 }
 
-- 
2.43.0


From 0ff986ea37c3c0e76d716fcc08152867fc44cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 13/46] fix: list Reachable and IsValidNode look past the first
 node

The loop condition was false on entry.
---
 stl/gp/list.gp      | 2 +-
 stl/gp/list.gp.go   | 2 +-
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/list.gp_int.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/stl/gp/list.gp b/stl/gp/list.gp
index d8b4cb8..df67c5e 100644
--- a/stl/gp/list.gp
+++ b/stl/gp/list.gp
@@ -278,7 +278,7 @@ func (this *<GLOBAL_NAME_PREFIX>List) Remove(node *<GLOBAL_NAME_PREFIX>ListNode)
 
 func (this *<GLOBAL_NAME_PREFIX>List) Reachable(node, dest *<GLOBAL_NAME_PREFIX>ListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/list.gp.go b/stl/gp/list.gp.go
index ac686ea..c37a5e2 100644
--- a/stl/gp/list.gp.go
+++ b/stl/gp/list.gp.go
@@ -375,7 +375,7 @@ func (this *GOGPGlobalNamePrefixList) Remove(node *GOGPGlobalNamePrefixListNode)
 
 func (this *GOGPGlobalNamePrefixList) Reachable(node, dest *GOGPGlobalNamePrefixListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 1a85b5a..72f591f 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -351,7 +351,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListN
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Reachable(node, dest *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 361b1d0..b4993be 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -448,7 +448,7 @@ func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListN
 
 func (this *GOGPGlobalNamePrefixSList) Reachable(node, dest *GOGPGlobalNamePrefixSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/list.gp_int.go b/stl/list.gp_int.go
index 50fa66e..68345e6 100644
--- a/stl/list.gp_int.go
+++ b/stl/list.gp_int.go
@@ -272,7 +272,7 @@ func (this *IntList) Remove(node *IntListNode) (n *IntListNode) {
 
 func (this *IntList) Reachable(node, dest *IntListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index af27744..abbe6cd 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -260,7 +260,7 @@ func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
 
 func (this *IntSList) Reachable(node, dest *IntSListNode) (ok bool) {
 	if ok = (node == dest) && node != nil; !ok && node != nil && dest != nil {
-		for p := node; p != nil && p != node; p = p.next {
+		for p := node.next; p != nil && p != node; p = p.next {
 			if ok = (p == dest); ok {
 				break
 			}
-- 
2.43.0


From 12aa4949dda0d5edbdf48bd296fd037f52aad850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 14/46] fix: slist visitor Next reports whether there is a node

It always returned false, so Len was 0 and a visitor saw nothing.
---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 72f591f..75672a9 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -79,7 +79,7 @@ func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SListNodeVisitor) Get() *<GLOBAL_NAME_PREFIX>SListNode {
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index b4993be..2c1883f 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -176,7 +176,7 @@ func (this *GOGPGlobalNamePrefixSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *GOGPGlobalNamePrefixSListNodeVisitor) Get() *GOGPGlobalNamePrefixSListNode {
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index abbe6cd..946920f 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -73,7 +73,7 @@ func (this *IntSListNodeVisitor) Next() (ok bool) {
 		this.node = this.node.next
 		ok = this.node != nil
 	}
-	return false
+	return
 }
 
 func (this *IntSListNodeVisitor) Get() *IntSListNode {
-- 
2.43.0


From 35651efdec46e7c5315ed85719cc619e82089239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 15/46] fix: slist Empty is true for an empty list

It was inverted, and Sort panicked on every list of two or more elements.
---
 stl/gp/slist.gp     | 2 +-
 stl/gp/slist.gp.go  | 2 +-
 stl/slist.gp_int.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index 75672a9..cb618f2 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -103,7 +103,7 @@ func New<GLOBAL_NAME_PREFIX>SList() *<GLOBAL_NAME_PREFIX>SList {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) Len() (n int) {
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 2c1883f..751639c 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -200,7 +200,7 @@ func NewGOGPGlobalNamePrefixSList() *GOGPGlobalNamePrefixSList {
 }
 
 func (this *GOGPGlobalNamePrefixSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *GOGPGlobalNamePrefixSList) Len() (n int) {
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 946920f..37f1c1e 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -94,7 +94,7 @@ func NewIntSList() *IntSList {
 }
 
 func (this *IntSList) Empty() bool {
-	return this.head.next != nil
+	return this.head.next == nil
 }
 
 func (this *IntSList) Len() (n int) {
-- 
2.43.0


From 7c0feb07f9b8f9df9ee902927222700c2eb0f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 16/46] fix: slist PushFrontList empties the other list

Both lists kept the same nodes, so the other list then also contained this one.
PushBackList and the two-way list already clear it.
---
 stl/gp/slist.gp     | 1 +
 stl/gp/slist.gp.go  | 1 +
 stl/slist.gp_int.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index cb618f2..f219647 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -189,6 +189,7 @@ func (this *<GLOBAL_NAME_PREFIX>SList) PushFrontList(other *<GLOBAL_NAME_PREFIX>
 			this.tail = t
 		} //
 		//#GOGP_ENDIF
+		other.Clear()
 	}
 }
 
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 751639c..73d6b48 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -286,6 +286,7 @@ func (this *GOGPGlobalNamePrefixSList) PushFrontList(other *GOGPGlobalNamePrefix
 			this.tail = t
 		} //
 		//#GOGP_ENDIF
+		other.Clear()
 	}
 }
 
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 37f1c1e..3ec1c59 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -140,6 +140,7 @@ func (this *IntSList) PushFrontList(other *IntSList) {
 		t.next = this.head.next
 		this.head.next = other.head.next
 
+		other.Clear()
 	}
 }
 
-- 
2.43.0


From 8508a92a32630b2ba4045fdd248c306e79605669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 17/46] fix: slist HasCycle works on acyclic lists

It dereferenced nil past the end of the list, reported nil==nil as a cycle and
stepped both pointers twice per round.
---
 stl/gp/slist.gp     | 9 ++-------
 stl/gp/slist.gp.go  | 9 ++-------
 stl/slist.gp_int.go | 9 ++-------
 3 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/stl/gp/slist.gp b/stl/gp/slist.gp
index f219647..f443a5d 100644
--- a/stl/gp/slist.gp
+++ b/stl/gp/slist.gp
@@ -330,13 +330,8 @@ func (this *<GLOBAL_NAME_PREFIX>SList) Reverse() {
 }
 
 func (this *<GLOBAL_NAME_PREFIX>SList) HasCycle(head *<GLOBAL_NAME_PREFIX>SListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
-		fast = fast.next
-		if ok = fast != nil; !ok {
-			break
-		}
-		fast = fast.next
-		slow = slow.next
+	for slow, fast := head, head; fast != nil && fast.next != nil; {
+		fast, slow = fast.next.next, slow.next
 		if ok = fast == slow; ok {
 			break
 		}
diff --git a/stl/gp/slist.gp.go b/stl/gp/slist.gp.go
index 73d6b48..0d78ef7 100644
--- a/stl/gp/slist.gp.go
+++ b/stl/gp/slist.gp.go
@@ -427,13 +427,8 @@ func (this *GOGPGlobalNamePrefixSList) Reverse() {
 }
 
 func (this *GOGPGlobalNamePrefixSList) HasCycle(head *GOGPGlobalNamePrefixSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
-		fast = fast.next
-		if ok = fast != nil; !ok {
-			break
-		}
-		fast = fast.next
-		slow = slow.next
+	for slow, fast := head, head; fast != nil && fast.next != nil; {
+		fast, slow = fast.next.next, slow.next
 		if ok = fast == slow; ok {
 			break
 		}
diff --git a/stl/slist.gp_int.go b/stl/slist.gp_int.go
index 3ec1c59..cd34a74 100644
--- a/stl/slist.gp_int.go
+++ b/stl/slist.gp_int.go
@@ -239,13 +239,8 @@ func (this *IntSList) Reverse() {
 }
 
 func (this *IntSList) HasCycle(head *IntSListNode) (ok bool) {
-	for slow, fast := head, head; fast != nil; fast, slow = fast.next.next, slow.next { //do nothing body
-		fast = fast.next
-		if ok = fast != nil; !ok {
-			break
-		}
-		fast = fast.next
-		slow = slow.next
+	for slow, fast := head, head; fast != nil && fast.next != nil; {
+		fast, slow = fast.next.next, slow.next
 		if ok = fast == slow; ok {
 			break
 		}
-- 
2.43.0


From c30341f0eac3c16247ac4fde95ee8e9325cb2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 18/46] fix: IsPrime divides by the primes up to the square
 root

The bound was 0, so every number coprime to 6 (25, 35, 49...) was prime.
---
 math/prime/prime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/prime/prime.go b/math/prime/prime.go
index 9889ddf..0b23baf 100644
--- a/math/prime/prime.go
+++ b/math/prime/prime.go
@@ -11,7 +11,7 @@ func IsPrime(num uint32) bool {
 	if mod != 1 && mod != 5 {
 		return false
 	}
-	max := uint32(0) //uint64(math.Floor(math.Sqrt(float64(num))))
+	max := SqrtUint32(num)
 	for i := 2; i < len(g_primes); i++ {
 		prime := g_primes[i]
 		if prime > max {
-- 
2.43.0


From a6331d5ddf15b4d0a61114dc461c3159f0b41a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 19/46] fix: ranged integers report values out of range

Every error return was commented out with the package it used, so a value
could leave its range, overflow went unnoticed and Div/Mod by 0 panicked.
---
 math/range_uint32.go | 18 +++++++++---------
 math/range_uint64.go | 20 ++++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/math/range_uint32.go b/math/range_uint32.go
index 21be19c..25bfd58 100644
--- a/math/range_uint32.go
+++ b/math/range_uint32.go
@@ -41,7 +41,7 @@ func (me *RangeUint32) Init(_val, _min, _max uint32) (err error) {
 
 func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 	if math.MaxUint32-other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -49,7 +49,7 @@ func (me *RangeUint32) Add(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -58,7 +58,7 @@ func (me *RangeUint32) Sub(other uint32) (r uint32, err error) {
 
 func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 	if other > 0 && math.MaxUint32/other < me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -66,7 +66,7 @@ func (me *RangeUint32) Mul(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Div(other uint32) (r uint32, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru32_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -82,14 +82,14 @@ func (me *RangeUint32) Mod(other uint32) (r uint32, err error) {
 }
 func (me *RangeUint32) Inc() (r uint32, err error) {
 	if math.MaxUint32 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUint32) Dec(other uint32) (r uint32, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru32_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUint32] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -135,16 +135,16 @@ func (me *RangeUint32) Info() string {
 
 func (me *RangeUint32) verify(_val uint32) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUint32(_val, _min, _max uint32) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUint32] min(%d) > max(%d) error", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru32_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUint32] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
diff --git a/math/range_uint64.go b/math/range_uint64.go
index 4fb12fe..8550a91 100644
--- a/math/range_uint64.go
+++ b/math/range_uint64.go
@@ -47,7 +47,7 @@ func (me *RangeUInt64) Init(_val, _min, _max uint64) (err error) {
 
 func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 	if math.MaxUint64-other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Add(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Add(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val + other
 	r, err = v, me.verify(v)
@@ -55,7 +55,7 @@ func (me *RangeUInt64) Add(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 	if me.val < other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Sub(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Sub(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val - other
 	r, err = v, me.verify(v)
@@ -64,7 +64,7 @@ func (me *RangeUInt64) Sub(other uint64) (r uint64, err error) {
 
 func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 	if other > 0 && math.MaxUint64/other < me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Mul(%d) will cause out of range :%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mul(%d) will cause out of range :%s", other, me.Info())
 	}
 	v := me.val * other
 	r, err = v, me.verify(v)
@@ -72,7 +72,7 @@ func (me *RangeUInt64) Mul(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, aerr.Newf(errid_ru64_full, "Div(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Div(%d) error:%s", other, me.Info())
 	}
 	v := me.val / other
 	r, err = v, me.verify(v)
@@ -80,7 +80,7 @@ func (me *RangeUInt64) Div(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 	if 0 == other {
-		//return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Mod(%d) error:%s", other, me.Info())
 	}
 	v := me.val % other
 	r, err = v, me.verify(v)
@@ -88,14 +88,14 @@ func (me *RangeUInt64) Mod(other uint64) (r uint64, err error) {
 }
 func (me *RangeUInt64) Inc() (r uint64, err error) {
 	if math.MaxUint64 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Inc() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Inc() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val + 1)
 	return
 }
 func (me *RangeUInt64) Dec(other uint64) (r uint64, err error) {
 	if 0 == me.val {
-		//return me.min, aerr.Newf(errid_ru64_full, "Dec() will cause out of range :%s", me.Info())
+		return me.min, fmt.Errorf("[RangeUInt64] Dec() will cause out of range :%s", me.Info())
 	}
 	r, err = me.Set(me.val - 1)
 	return
@@ -136,16 +136,16 @@ func (me *RangeUInt64) Info() string {
 
 func (me *RangeUInt64) verify(_val uint64) (err error) {
 	if !me.InRange(_val) {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, me.min, me.max)
+		err = fmt.Errorf("[RangeUInt64] val(%d) out of range[%d,%d]", _val, me.min, me.max)
 	}
 	return
 }
 
 func verifyRangeUInt64(_val, _min, _max uint64) (err error) {
 	if _min > _max {
-		//err = aerr.New(errid_min_max_error)
+		err = fmt.Errorf("[RangeUInt64] min(%d) > max(%d) error", _min, _max)
 	} else if _val < _min || _val > _max {
-		//err = aerr.Newf(errid_ru64_full, "val(%d) out of range[%d,%d]", _val, _min, _max)
+		err = fmt.Errorf("[RangeUInt64] val(%d) out of range[%d,%d]", _val, _min, _max)
 	}
 	return
 }
-- 
2.43.0


From 95371ea8022f5f5c597ce8e33ec9135be8e23111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 20/46] fix: Fingerprint Reset also resets the size

The fingerprint after Reset depended on what had been hashed before.
---
 hash/finger_print.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index f0b3859..d7e9024 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -63,6 +63,7 @@ func (this *Fingerprint) Reset() {
 	this.hs1.Reset()
 	this.hs2.Reset()
 	this.hs3.Reset()
+	this.size = 0
 }
 
 func (this *Fingerprint) Size() int {
-- 
2.43.0


From ee9340ab7cc147118bd992e5870886f5b78491e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 21/46] fix: Fingerprint and NoneHash honour the hash.Hash
 contract

Sum dropped the bytes it has to append to, Size did not return the number of
bytes of a sum, and NoneHash.Write reported a short write without an error.
---
 hash/finger_print.go | 4 ++--
 hash/none_hash.go    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hash/finger_print.go b/hash/finger_print.go
index d7e9024..5dc6aa3 100644
--- a/hash/finger_print.go
+++ b/hash/finger_print.go
@@ -48,7 +48,7 @@ func (this *Fingerprint) Write(p []byte) (n int, err error) {
 }
 
 func (this *Fingerprint) Sum(b []byte) []byte {
-	buf := bytes.NewBuffer(nil)
+	buf := bytes.NewBuffer(append([]byte(nil), b...))
 	size := uint64(this.size & 0xFFFFFFFFFFFF)
 	for i := uint(6); i > 0; i-- {
 		buf.WriteByte(byte(size >> ((i - 1) * 8) & 0xff))
@@ -67,7 +67,7 @@ func (this *Fingerprint) Reset() {
 }
 
 func (this *Fingerprint) Size() int {
-	return int(this.size)
+	return 24
 }
 
 func (this *Fingerprint) BlockSize() int {
diff --git a/hash/none_hash.go b/hash/none_hash.go
index 7c08ca2..fd3fec4 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -24,11 +24,11 @@ func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (this *NoneHash) Write(p []byte) (n int, err error) {
-	return
+	return len(p), nil
 }
 
 func (this *NoneHash) Sum(b []byte) []byte {
-	buf := bytes.NewBuffer(nil)
+	buf := bytes.NewBuffer(append([]byte(nil), b...))
 	id := this.id
 	for i := uint(4); i > 0; i-- {
 		buf.WriteByte(byte(id >> ((i - 1) * 8) & 0xff))
@@ -40,7 +40,7 @@ func (this *NoneHash) Reset() {
 }
 
 func (this *NoneHash) Size() int {
-	return 0
+	return 4
 }
 
 func (this *NoneHash) BlockSize() int {
-- 
2.43.0


From 548e88eff93e467d12a73bec16bb46d617668c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 22/46] fix: NoneHash ids are unique when created concurrently

---
 hash/none_hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/none_hash.go b/hash/none_hash.go
index fd3fec4..9c76d22 100644
--- a/hash/none_hash.go
+++ b/hash/none_hash.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"hash"
 	"io"
+	"sync/atomic"
 )
 
 var (
@@ -15,8 +16,7 @@ type NoneHash struct {
 }
 
 func NewNoneHash() hash.Hash {
-	gId++
-	return &NoneHash{id: gId}
+	return &NoneHash{id: atomic.AddUint32(&gId, 1)}
 }
 
 func (this *NoneHash) ReadFrom(r io.Reader) (n int64, err error) {
-- 
2.43.0


From f5396dda5afcabb19bee34d91f3cca24cead6ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 23/46] fix: Copys delivers a WriterTo source to every
 destination

WriteTo drains the source, so only the first destination got the data.
---
 io/io.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/io/io.go b/io/io.go
index 19d3567..d60fd4d 100644
--- a/io/io.go
+++ b/io/io.go
@@ -12,13 +12,8 @@ func Copys(src io.Reader, dsts ...io.Writer) (written int64, err error) {
 
 //copy src to multi dsts
 func CopysBuffer(src io.Reader, buf []byte, dsts ...io.Writer) (written int64, err error) {
-	if wt, ok := src.(io.WriterTo); ok {
-		for _, dst := range dsts {
-			if written, err = wt.WriteTo(dst); err != nil {
-				break
-			}
-		}
-		return
+	if wt, ok := src.(io.WriterTo); ok && len(dsts) == 1 {
+		return wt.WriteTo(dsts[0])
 	}
 
 	if buf == nil {
-- 
2.43.0


From 4a57dbf38889fcae41d382c4ad6e94df1e404f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:59 +0000
Subject: [PATCH 24/46] fix: Copys detects a short write of any destination

Only the count of the last destination was checked.
---
 io/io.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/io/io.go b/io/io.go
index d60fd4d..d663056 100644
--- a/io/io.go
+++ b/io/io.go
@@ -23,20 +23,18 @@ ReadAll:
 	for {
 		nr, er := src.Read(buf)
 		if nr > 0 {
-			nw, ew := int(0), error(nil)
 			for _, dst := range dsts {
-				if nw, ew = dst.Write(buf[0:nr]); ew != nil {
+				nw, ew := dst.Write(buf[0:nr])
+				if ew != nil {
 					err = ew
 					break ReadAll
 				}
+				if nr != nw {
+					err = io.ErrShortWrite
+					break ReadAll
+				}
 			}
-			if nw > 0 {
-				written += int64(nw)
-			}
-			if nr != nw {
-				err = io.ErrShortWrite
-				break
-			}
+			written += int64(nr)
 		}
 
 		if er != nil {
-- 
2.43.0


From 524cfc57f385be44636753277978f46fddfb7188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:55 +0000
Subject: [PATCH 25/46] fix: RWSpinLock excludes readers and writers and can be
 released

A writer did not wait for readers already in, a reader that had passed the
check entered beside a writer, and the last reader never released the writer
lock, so the next Lock spun until it panicked.
---
 sync/spinrwlock.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/sync/spinrwlock.go b/sync/spinrwlock.go
index 3d5e8c0..569917b 100644
--- a/sync/spinrwlock.go
+++ b/sync/spinrwlock.go
@@ -15,12 +15,22 @@ type RWSpinLock struct {
 }
 
 func (this *RWSpinLock) Lock() {
-	this.w.Lock()                                             //get writer lock first
-	atomic.AddInt32(&this.readerCount, -rwSpinLockMaxReaders) //tell readers there is a writer
+	this.w.Lock() //get writer lock first
+	for i := 0; ; i++ {
+		if i > spinLockMaxLoop {
+			this.w.Unlock()
+			panic("[sync] maybe dead lock on RWSpinLock.Lock")
+		}
+
+		//wait for the last reader, and tell readers there is a writer
+		if atomic.CompareAndSwapInt32(&this.readerCount, 0, -rwSpinLockMaxReaders) {
+			break
+		}
+	}
 }
 
 func (this *RWSpinLock) Unlock() {
-	if r := atomic.AddInt32(&this.readerCount, rwSpinLockMaxReaders); r >= rwSpinLockMaxReaders {
+	if !atomic.CompareAndSwapInt32(&this.readerCount, -rwSpinLockMaxReaders, 0) {
 		panic("[sync] Unlock on unlocked RWSpinLock")
 	}
 	this.w.Unlock()
@@ -33,21 +43,21 @@ func (this *RWSpinLock) RLock() {
 		}
 
 		if r := atomic.LoadInt32(&this.readerCount); r >= 0 { // A writer is pending, wait for it.
-			if atomic.AddInt32(&this.readerCount, 1) == 1 {
-				this.w.Lock() //first waiter reader, block writer
+			if atomic.CompareAndSwapInt32(&this.readerCount, r, r+1) {
+				break
 			}
-			break
 		}
 	}
 }
 func (this *RWSpinLock) RUnlock() {
-	if r := atomic.AddInt32(&this.readerCount, -1); r < 0 {
-		if r+1 == 0 || r+1 == -rwSpinLockMaxReaders {
+	for {
+		r := atomic.LoadInt32(&this.readerCount)
+		if r <= 0 {
 			panic("sync: RUnlock of unlocked RWSpinLock")
 		}
-		if r == 0 {
-			// The last reader unblocks the writer.
-			this.w.Unlock()
+		// The last reader unblocks the writer.
+		if atomic.CompareAndSwapInt32(&this.readerCount, r, r-1) {
+			break
 		}
 	}
 }
-- 
2.43.0


From 2700913e7e116d0d757b8ccc32feff3ccb321681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:55 +0000
Subject: [PATCH 26/46] fix: padding never writes to the caller's buffer

append wrote the padding into the spare capacity of the slice it was given,
over whatever the caller keeps behind it.
---
 crypto/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/padding.go b/crypto/padding.go
index 798ffe1..bfa1090 100644
--- a/crypto/padding.go
+++ b/crypto/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func ZeroPadding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func ZeroUnPadding(origData []byte) []byte {
@@ -17,7 +17,7 @@ func ZeroUnPadding(origData []byte) []byte {
 func PKCS5Padding(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func PKCS5UnPadding(origData []byte) []byte {
-- 
2.43.0


From c8ac9aa26265f3646d090adc2f8ae19b5389986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:55 +0000
Subject: [PATCH 27/46] fix: unpadding and decrypting malformed data yields nil
 instead of a panic

---
 crypto/aes/aes.go | 9 +++++++++
 crypto/padding.go | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/crypto/aes/aes.go b/crypto/aes/aes.go
index 990ccdc..c73dbd8 100644
--- a/crypto/aes/aes.go
+++ b/crypto/aes/aes.go
@@ -26,7 +26,13 @@ func PKCS7PaddingString(str string, blockSize int) []byte {
 }
 
 func PKCS7Unpadding(b []byte) []byte {
+	if len(b) == 0 {
+		return nil
+	}
 	size := int(b[len(b)-1])
+	if size > len(b) {
+		return nil
+	}
 	return b[:len(b)-size]
 }
 
@@ -83,6 +89,9 @@ func NewAESDecrypter(key []byte) (*AESDecrypter, error) {
 }
 
 func (this *AESDecrypter) Decrypt(b []byte) []byte {
+	if len(b)%this.blockSize != 0 {
+		return nil
+	}
 	decrypted := make([]byte, len(b))
 	this.blockMode.CryptBlocks(decrypted, b)
 	return PKCS7Unpadding(decrypted)
diff --git a/crypto/padding.go b/crypto/padding.go
index bfa1090..2cc3234 100644
--- a/crypto/padding.go
+++ b/crypto/padding.go
@@ -22,7 +22,13 @@ func PKCS5Padding(ciphertext []byte, blockSize int) []byte {
 
 func PKCS5UnPadding(origData []byte) []byte {
 	length := len(origData)
+	if length == 0 {
+		return nil
+	}
 	// 去掉最后一个字节 unpadding 次
 	unpadding := int(origData[length-1])
+	if unpadding > length {
+		return nil
+	}
 	return origData[:(length - unpadding)]
 }
-- 
2.43.0


From a7e6155a0e3fbc7157f13fd9fe2294ca90161131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:55 +0000
Subject: [PATCH 28/46] fix: factories remember the creaters they accept

AddCreater and RemoveCreater reported success without doing anything, so Create
always returned nil.
---
 factory/factoryi.go | 26 +++++++++++++++++++++++++-
 factory/factorys.go | 26 +++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/factory/factoryi.go b/factory/factoryi.go
index 0febb58..031aae6 100644
--- a/factory/factoryi.go
+++ b/factory/factoryi.go
@@ -1,23 +1,47 @@
 package factory
 
+import (
+	"fmt"
+	"sync"
+)
+
 func NewFactoryI() *FactoryI {
 	return &FactoryI{cmap: make(map[int]Creater)}
 }
 
 type FactoryI struct {
 	cmap map[int]Creater
+	lock sync.RWMutex //protect cmap
 }
 
 func (me *FactoryI) AddCreater(nType int, creater Creater) error {
+	me.lock.Lock()
+	defer me.lock.Unlock()
+	if creater == nil {
+		return fmt.Errorf("[factory] nil creater of type %d", nType)
+	}
+	if _, ok := me.cmap[nType]; ok {
+		return fmt.Errorf("[factory] duplicate creater of type %d", nType)
+	}
+	me.cmap[nType] = creater
 	return nil
 }
 
 func (me *FactoryI) RemoveCreater(nType int) error {
+	me.lock.Lock()
+	defer me.lock.Unlock()
+	if _, ok := me.cmap[nType]; !ok {
+		return fmt.Errorf("[factory] no creater of type %d", nType)
+	}
+	delete(me.cmap, nType)
 	return nil
 }
 
 func (me *FactoryI) Create(nType int, arg ...interface{}) interface{} {
-	if p, ok := me.cmap[nType]; ok {
+	me.lock.RLock()
+	p, ok := me.cmap[nType]
+	me.lock.RUnlock()
+	if ok {
 		return p.Create(arg...)
 	}
 	return nil
diff --git a/factory/factorys.go b/factory/factorys.go
index a66e9a6..5578ed6 100644
--- a/factory/factorys.go
+++ b/factory/factorys.go
@@ -1,23 +1,47 @@
 package factory
 
+import (
+	"fmt"
+	"sync"
+)
+
 func NewFactoryS() *FactoryS {
 	return &FactoryS{cmap: make(map[string]Creater)}
 }
 
 type FactoryS struct {
 	cmap map[string]Creater
+	lock sync.RWMutex //protect cmap
 }
 
 func (me *FactoryS) AddCreater(typename string, creater Creater) error {
+	me.lock.Lock()
+	defer me.lock.Unlock()
+	if creater == nil {
+		return fmt.Errorf("[factory] nil creater of type %q", typename)
+	}
+	if _, ok := me.cmap[typename]; ok {
+		return fmt.Errorf("[factory] duplicate creater of type %q", typename)
+	}
+	me.cmap[typename] = creater
 	return nil
 }
 
 func (me *FactoryS) RemoveCreater(typename string) error {
+	me.lock.Lock()
+	defer me.lock.Unlock()
+	if _, ok := me.cmap[typename]; !ok {
+		return fmt.Errorf("[factory] no creater of type %q", typename)
+	}
+	delete(me.cmap, typename)
 	return nil
 }
 
 func (me *FactoryS) Create(typename string, arg ...interface{}) interface{} {
-	if p, ok := me.cmap[typename]; ok {
+	me.lock.RLock()
+	p, ok := me.cmap[typename]
+	me.lock.RUnlock()
+	if ok {
 		return p.Create(arg...)
 	}
 	return nil
-- 
2.43.0


From 1628cb94a1bad6e548c66c91606386c2d93b7b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:55 +0000
Subject: [PATCH 29/46] fix: ini New reports a read error

Reading stopped at the first error and New returned what it had, with no error.
---
 encoding/ini/ini.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/encoding/ini/ini.go b/encoding/ini/ini.go
index 3129f01..d6ac7ac 100644
--- a/encoding/ini/ini.go
+++ b/encoding/ini/ini.go
@@ -41,11 +41,15 @@ func New(path string) (*IniFile, error) {
 	defer func() {
 		f.Close()
 	}()
-	r := Load(f)
-	return r, nil
+	return load(f)
 }
 
 func Load(f io.Reader) *IniFile {
+	r, _ := load(f)
+	return r
+}
+
+func load(f io.Reader) (*IniFile, error) {
 	m := make(map[string]section)
 	r := bufio.NewReader(f)
 	sec := ""
@@ -83,7 +87,10 @@ func Load(f io.Reader) *IniFile {
 		}
 		m[sec][key] = val
 	}
-	return &IniFile{m}
+	if err == io.EOF {
+		err = nil
+	}
+	return &IniFile{m}, err
 }
 
 func (p *IniFile) Sections() []string {
-- 
2.43.0


From 2a48d522bc7583c65e3d7860b4a6feaf9275098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:55 +0000
Subject: [PATCH 30/46] fix: StringBytes keeps the string's buffer reachable

The address was held in a plain reflect.SliceHeader variable, which does not
keep the buffer alive.
---
 unsafe/string.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unsafe/string.go b/unsafe/string.go
index e2d7607..9f77f61 100644
--- a/unsafe/string.go
+++ b/unsafe/string.go
@@ -46,11 +46,11 @@ func (me String) Pointer() Pointer {
 }
 
 //return GoString's buffer slice(enable modify string)
-func StringBytes(s string) Bytes {
-	var bh reflect.SliceHeader
+func StringBytes(s string) (b Bytes) {
+	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
 	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
 	bh.Data, bh.Len, bh.Cap = sh.Data, sh.Len, sh.Len
-	return *(*Bytes)(unsafe.Pointer(&bh))
+	return b
 }
 
 // convert b to string without copy
-- 
2.43.0


From 6499298cacad3fdecc9a34da3e63c62fb96b5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:55 +0000
Subject: [PATCH 31/46] fix: backtraces name the calling line

Callers returns return addresses, which may belong to the line after the call;
CallersFrames adjusts them and accounts for inlined functions.
---
 debug/backtrace.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/debug/backtrace.go b/debug/backtrace.go
index 59a99e5..317f33d 100644
--- a/debug/backtrace.go
+++ b/debug/backtrace.go
@@ -60,12 +60,12 @@ func Bts() (bts string) {
 	var buf bytes.Buffer
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(BtMe, __pcs[0:])
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	_frames := runtime.CallersFrames(__pcs[:n])
+	for i, _more := 0, n > 0; _more; i++ {
+		var _f runtime.Frame
+		_f, _more = _frames.Next()
 		s := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\n",
-			i, _f.Name(), _file, _line, _pc)
+			i, _f.Function, _f.File, _f.Line, _f.PC)
 		buf.WriteString(s)
 	}
 
@@ -97,12 +97,12 @@ func CallStackList(nDepth int) []string {
 	var __pcs [maxBtListLen]uintptr
 	n := runtime.Callers(nDepth, __pcs[0:])
 	cs := make([]string, 0, n)
-	for i := 0; i < n; i++ {
-		_pc := __pcs[i]
-		_f := runtime.FuncForPC(_pc)
-		_file, _line := _f.FileLine(_pc)
+	_frames := runtime.CallersFrames(__pcs[:n])
+	for _more := n > 0; _more; {
+		var _f runtime.Frame
+		_f, _more = _frames.Next()
 		s := fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{%0X}",
-			_f.Name(), _file, _line, _pc)
+			_f.Function, _f.File, _f.Line, _f.PC)
 		cs = append(cs, s)
 	}
 	return cs
-- 
2.43.0


From b6fb84ad144d18de7ad6cf52c81510bd17255679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:18 +0000
Subject: [PATCH 32/46] fix: package time builds (autoUpdate was declared
 twice)

---
 time/time_sys.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/time/time_sys.go b/time/time_sys.go
index 3154fde..1aecffb 100644
--- a/time/time_sys.go
+++ b/time/time_sys.go
@@ -31,10 +31,6 @@ func (this *timeSys) init() {
 
 }
 
-func (this *timeSys) autoUpdate() {
-
-}
-
 func (this *timeSys) Start() {
 
 }
-- 
2.43.0


From 8ca7386917ec10a848767412aa58c51821bc1e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:30 +0000
Subject: [PATCH 33/46] fix: RandRange works for the full range

---
 math/rand/rand.gp_32.go | 3 +++
 math/rand/rand.gp_64.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/math/rand/rand.gp_32.go b/math/rand/rand.gp_32.go
index 4d3cfbd..2f0402b 100644
--- a/math/rand/rand.gp_32.go
+++ b/math/rand/rand.gp_32.go
@@ -87,6 +87,9 @@ func (me *Rand32T) RandRange(min, max uint32) uint32 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //every uint32 is in range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
diff --git a/math/rand/rand.gp_64.go b/math/rand/rand.gp_64.go
index b286e57..a877f0f 100644
--- a/math/rand/rand.gp_64.go
+++ b/math/rand/rand.gp_64.go
@@ -87,6 +87,9 @@ func (me *Rand64T) RandRange(min, max uint64) uint64 {
 	}
 	d := max - min + 1
 	r := me.Rand()
+	if d == 0 { //every uint64 is in range
+		return r
+	}
 	ret := r%d + min
 
 	return ret
-- 
2.43.0


From fdb73525d1ad9659cb880e8626282db75d8a3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:24 +0000
Subject: [PATCH 34/46] fix: crypto/ecb imports the crypto package of this
 repository

---
 crypto/ecb/ecb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/ecb/ecb.go b/crypto/ecb/ecb.go
index ca2a0af..ba50a61 100644
--- a/crypto/ecb/ecb.go
+++ b/crypto/ecb/ecb.go
@@ -4,7 +4,7 @@ import (
 	"crypto/des"
 	"errors"
 
-	"gitee.com/vipally/gx/crypto"
+	"github.com/vipally/gx/crypto"
 )
 
 // 3DES加密
-- 
2.43.0


From d220c52f36da537c6ddfa7c4b3a3aa1c242d3c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:05 +0000
Subject: [PATCH 35/46] fix: package rsa builds (import path, nil results)

---
 crypto/rsa/code.go | 2 +-
 crypto/rsa/rsa.go  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/rsa/code.go b/crypto/rsa/code.go
index e1f5981..ce43d83 100644
--- a/crypto/rsa/code.go
+++ b/crypto/rsa/code.go
@@ -5,7 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 
-	"gitee.com/vipally/gx/crypto/ecb"
+	"github.com/vipally/gx/crypto/ecb"
 )
 
 var key = []byte("ac643718-9730-e711-59210")
diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index 805b891..f53bb75 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -104,7 +104,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	//generate private key
 	priKey, _err := rsa.GenerateKey(rand.Reader, bits)
 	if _err != nil {
-		return "", "", _err
+		return nil, nil, _err
 	}
 	derStream := x509.MarshalPKCS1PrivateKey(priKey)
 	block := &pem.Block{
@@ -115,7 +115,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPri bytes.Buffer
 	err = pem.Encode(&bufPri, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	privateKey = bufPri.Bytes()
 
@@ -123,7 +123,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	pubKey := &priKey.PublicKey
 	derPkix, err := x509.MarshalPKIXPublicKey(pubKey)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	block = &pem.Block{
 		Type:  "public key",
@@ -132,7 +132,7 @@ func GenRsaKeys(bits int) (privateKey, publicKey []byte, err error) {
 	var bufPub bytes.Buffer
 	err = pem.Encode(&bufPub, block)
 	if err != nil {
-		return "", "", err
+		return nil, nil, err
 	}
 	publicKey = bufPub.Bytes()
 	return
-- 
2.43.0


From 11f152af44d192e604d9ae0cfbb485e0254ad518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:06 +0000
Subject: [PATCH 36/46] fix: NewClient reports a public key that is not an RSA
 key

---
 crypto/rsa/rsa.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/rsa/rsa.go b/crypto/rsa/rsa.go
index f53bb75..a650faf 100644
--- a/crypto/rsa/rsa.go
+++ b/crypto/rsa/rsa.go
@@ -36,7 +36,10 @@ func NewClient(publicKey []byte) (*RsaClient, error) {
 	if err != nil {
 		return nil, err
 	}
-	pub := pubInterface.(*rsa.PublicKey)
+	pub, ok := pubInterface.(*rsa.PublicKey)
+	if !ok {
+		return nil, errPublicKey
+	}
 	c := &RsaClient{publicKey: pub}
 	return c, nil
 }
-- 
2.43.0


From 8bc78f9bef3b2953ec916e3744680613fc25d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:06 +0000
Subject: [PATCH 37/46] fix: package fs builds (name of the sort slice, fields
 of the node value)

---
 fs/file_path.go            | 26 +++++++++++++-------------
 fs/tree.gp_filehash38b3.go |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index d353667..efe3334 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -415,21 +415,21 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
-			h.Resetsize(int64(root.Size))
+			h.Resetsize(int64(root.val.Size))
 			p := h.String()
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
@@ -464,20 +464,20 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 					}
 					root.SortChildren()
 					for _, v := range root.Children() {
-						r := strings.NewReader(v.Hash)
+						r := strings.NewReader(v.val.Hash)
 						io.Copy(h, r)
-						root.Size += v.Size
+						root.val.Size += v.val.Size
 					}
-					root.IsDir = true
+					root.val.IsDir = true
 				}
 			} else {
 				r := io.Reader(f)
 				io.Copy(h, r)
-				root.Size = FileSize(fi.Size())
+				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-			root.Path = me.String()
-			root.Hash = p
+			root.val.Path = me.String()
+			root.val.Hash = p
 		}
 	}
 	return
diff --git a/fs/tree.gp_filehash38b3.go b/fs/tree.gp_filehash38b3.go
index 8b17bd3..b54c1b1 100644
--- a/fs/tree.gp_filehash38b3.go
+++ b/fs/tree.gp_filehash38b3.go
@@ -38,7 +38,7 @@ func NewFileHashTree() *FileHashTree {
 //tree node
 type FileHashTreeNode struct {
 	val      FileHash
-	children FileHashTreeNodeSortSlice
+	children FileHashSortSlice
 }
 
 func (this *FileHashTreeNode) Less(right *FileHashTreeNode) (ok bool) {
-- 
2.43.0


From 3380164b92c379ec1af285440efca697d808520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:27 +0000
Subject: [PATCH 38/46] fix: Link, Rename and Symlink take an absolute name as
 it is

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index efe3334..fcade19 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -339,7 +339,7 @@ func (me FilePathObject) Stat() (os.FileInfo, error) {
 //if _destPath is related path, then calculate from me.Dir
 func (me FilePathObject) relateThisPath(_destPath string) FilePathObject {
 	n := FilePath(_destPath)
-	if n.VolumeName() == "" { //related path, then calculate from me.Dir
+	if !filepath.IsAbs(n.StringSys()) { //related path, then calculate from me.Dir
 		n.Set(Joins(me.Dir(), n.String()))
 	}
 	return n
-- 
2.43.0


From cc1e6e99dc5d060ec943943db1837cbfe31933d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:27 +0000
Subject: [PATCH 39/46] fix: Move relates the new path to the directory once

---
 fs/file_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index fcade19..57aa94a 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -493,7 +493,7 @@ func (me FilePathObject) Copy(destPath string) (FilePathObject, error) {
 func (me FilePathObject) Move(destPath string) (FilePathObject, error) {
 	n := me.relateThisPath(destPath)
 	if me.VolumeName() == n.VolumeName() { //not cross disk,use rename operation
-		return me.Rename(n.String())
+		return n, os.Rename(string(me), n.String())
 	}
 	return "", nil
 }
-- 
2.43.0


From 7967ab7131bde58a2a7ead6a74f9620518dc0ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:27 +0000
Subject: [PATCH 40/46] fix: Fingerprint and Hash report a file that cannot be
 read

---
 fs/file_path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fs/file_path.go b/fs/file_path.go
index 57aa94a..1a6d675 100644
--- a/fs/file_path.go
+++ b/fs/file_path.go
@@ -423,7 +423,9 @@ func (me FilePathObject) Fingerprint() (root *FileHashTreeNode, err error) {
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return nil, err
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			h.Resetsize(int64(root.val.Size))
@@ -472,7 +474,9 @@ func (me FilePathObject) Hash(method xhash.HashMethod, salt string) (root *FileH
 				}
 			} else {
 				r := io.Reader(f)
-				io.Copy(h, r)
+				if _, err = io.Copy(h, r); err != nil {
+					return nil, err
+				}
 				root.val.Size = FileSize(fi.Size())
 			}
 			p := fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From 931254167863c0e8b084dca4cd322526f2ca7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:27 +0000
Subject: [PATCH 41/46] fix: CollectSubs reports a directory that cannot be
 opened or read

---
 fs/fs.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fs/fs.go b/fs/fs.go
index 82de1d0..f0aa364 100644
--- a/fs/fs.go
+++ b/fs/fs.go
@@ -55,9 +55,11 @@ func GetDeepFiles(dir string) (subs []string, err error) {
 }
 
 func CollectSubs(dir string, opt FsOption) (subs []string, err error) {
-	if _f, err := os.Open(dir); err == nil {
+	var _f *os.File
+	if _f, err = os.Open(dir); err == nil {
 		defer _f.Close()
-		if _subs, err := _f.Readdir(0); err == nil {
+		var _subs []os.FileInfo
+		if _subs, err = _f.Readdir(0); err == nil {
 			_has_sub_dir := false
 			for _, _v := range _subs {
 				_sub_name := _v.Name()
-- 
2.43.0


From 9414fc235773d182d13e32ffaf1072d566b68955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:08 +0000
Subject: [PATCH 42/46] fix: Chdir and WorkPath do not race on the working path

---
 fs/file_line.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fs/file_line.go b/fs/file_line.go
index aa0e1ec..2101819 100644
--- a/fs/file_line.go
+++ b/fs/file_line.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 const (
@@ -15,6 +16,7 @@ const (
 var (
 	gGoPath   = goPath()
 	gWorkPath = workPath()
+	gWorkLock sync.RWMutex //protects gWorkPath
 )
 
 //the caller's file/line info
@@ -67,6 +69,8 @@ func workPath() (p string) {
 
 //working path
 func WorkPath() (dir string) {
+	gWorkLock.RLock()
+	defer gWorkLock.RUnlock()
 	return gWorkPath
 }
 
@@ -91,6 +95,8 @@ func TempDir() string {
 }
 
 func Chdir(filePath string) (err error) {
+	gWorkLock.Lock()
+	defer gWorkLock.Unlock()
 	if err = os.Chdir(FormatPath(filePath)); err == nil {
 		gWorkPath = workPath() //refresh this lib
 	}
-- 
2.43.0


From 78ef66629a5b9c5a7b6c086db10a2668c151b382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:04 +0000
Subject: [PATCH 43/46] fix: package errors declares Reg once, so that it
 builds

---
 errors/interface.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/errors/interface.go b/errors/interface.go
index 35f5d87..dfd2bbd 100644
--- a/errors/interface.go
+++ b/errors/interface.go
@@ -15,11 +15,6 @@ type ErrorObj struct {
 	Para []interface{}
 }
 
-//regist an error
-func Reg(moduleId uint16, name, content string, handle Handler) ErrorId {
-	return 0
-}
-
 type ErrorInfo struct {
 	content string
 	name    string
-- 
2.43.0


From fa41ac5d67d7c767c949f5173bacd9c8c70769a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:04 +0000
Subject: [PATCH 44/46] fix: errors keeps the name of ERRID_STD and gives it an
 id of its own

---
 errors/errors.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index f5d496d..5dcd37d 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -37,10 +37,6 @@ type ErrorDef struct {
 //}
 
 //-------------------------------------------------------------------
-func init() {
-	g_id2err = []string{"unknown error"}
-}
-
 const (
 	//unknown error id
 	ERRID_UNKNOWN = errId(g_id_min)
@@ -52,9 +48,9 @@ var (
 
 var (
 	//registered error mapping
-	g_id2err      = make([]string, 0, g_init_err)
+	g_id2err      = append(make([]string, 0, g_init_err), "unknown error") //ERRID_UNKNOWN
 	g_id2err_lock sync.RWMutex
-	g_id_cur_max  errId = g_id_invalid
+	g_id_cur_max  errId = g_id_min
 )
 
 const (
-- 
2.43.0


From e950a918cf5b910b2489cb603d85b0a23bc629a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:04 +0000
Subject: [PATCH 45/46] fix: errors.StdErr does not take the text of the error
 for a format

---
 errors/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors/errors.go b/errors/errors.go
index 5dcd37d..3cf22be 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -132,5 +132,5 @@ func (cp errId) String() string {
 }
 
 func StdErr(e error) (err WithIdErr) {
-	return Newf(ERRID_STD, e.Error())
+	return Newf(ERRID_STD, "%s", e.Error())
 }
-- 
2.43.0


From 83e127c88904f525e322bdd8bdeb420add08ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:04 +0000
Subject: [PATCH 46/46] fix: errors.ShowAll reads the last id under the lock

---
 errors/errors.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/errors/errors.go b/errors/errors.go
index 3cf22be..88e5adf 100644
--- a/errors/errors.go
+++ b/errors/errors.go
@@ -95,9 +95,12 @@ func Reg(_err_name string) (id errId, err error) {
 
 func ShowAll() string {
 	var buf bytes.Buffer
-	s := fmt.Sprintf("[errors] Count:%d", g_id_cur_max-g_id_min+1)
+	g_id2err_lock.RLock()
+	cur_max := g_id_cur_max
+	g_id2err_lock.RUnlock()
+	s := fmt.Sprintf("[errors] Count:%d", cur_max-g_id_min+1)
 	buf.WriteString(s)
-	for id := errId(g_id_min); id <= g_id_cur_max; id++ {
+	for id := errId(g_id_min); id <= cur_max; id++ {
 		buf.WriteString(consts.NewLine)
 		buf.WriteString(id.String())
 	}
-- 
2.43.0

