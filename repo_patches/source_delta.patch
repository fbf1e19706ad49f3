From a7dc38a9a7c49a40c394e64eb0a89f9f826ba4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 01/20] fix: import math in the comparator package

Float32Comparator and Float64Comparator use math.IsNaN, but the package did
not import math, so it and everything depending on it failed to compile.
---
 utils/comparator/comparator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index 32ba76d..aad362d 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -1,5 +1,7 @@
 package comparator
 
+import "math"
+
 type Ordered interface {
 	Integer | Float | ~string
 }
-- 
2.43.0


From 3ac37395d468f0634cb7b335691d40d441f3843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 02/20] fix: compare real parts in Complex64Comparator

It compared real(a) with itself, so a value with the smaller real part was
never reported as smaller and both argument orders gave 1.
---
 utils/comparator/comparator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/comparator/comparator.go b/utils/comparator/comparator.go
index aad362d..f903548 100644
--- a/utils/comparator/comparator.go
+++ b/utils/comparator/comparator.go
@@ -282,7 +282,7 @@ func Complex64Comparator(a, b complex64) int {
 	if a == b {
 		return 0
 	}
-	if real(a) < real(a) {
+	if real(a) < real(b) {
 		return -1
 	}
 	if real(a) == real(b) && imag(a) < imag(b) {
-- 
2.43.0


From 015be0536d313fe1ace9aa373c5c106f4affbe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 03/20] fix: keep other nodes and iterators good when deleting
 from an rbtree

Deleting a node with two children moved the successor's pair into it and
unlinked the successor's node, so an iterator already standing on the
successor (erase while iterating) was left on a node outside the tree, and
erasing through it corrupted the tree.
---
 ds/rbtree/rbtree.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/ds/rbtree/rbtree.go b/ds/rbtree/rbtree.go
index cf7cee9..f591d24 100644
--- a/ds/rbtree/rbtree.go
+++ b/ds/rbtree/rbtree.go
@@ -197,17 +197,43 @@ func (t *RbTree[K, V]) Delete(node *Node[K, V]) {
 		y.parent.right = x
 	}
 
+	yColor := y.color
 	if y != z {
-		z.key = y.key
-		z.value = y.value
+		// Put y itself in z's place rather than moving its pair into z, so that
+		// nodes and iterators referring to y stay good and z is the one removed.
+		if xparent == z {
+			xparent = y
+		}
+		t.replaceNode(z, y)
 	}
 
-	if y.color {
+	if yColor {
 		t.rbDeleteFixup(x, xparent)
 	}
 	t.size--
 }
 
+// replaceNode puts the detached node y in the place of z, taking over its links and color
+func (t *RbTree[K, V]) replaceNode(z, y *Node[K, V]) {
+	y.parent = z.parent
+	y.left = z.left
+	y.right = z.right
+	y.color = z.color
+	if z.parent == nil {
+		t.root = y
+	} else if z == z.parent.left {
+		z.parent.left = y
+	} else {
+		z.parent.right = y
+	}
+	if y.left != nil {
+		y.left.parent = y
+	}
+	if y.right != nil {
+		y.right.parent = y
+	}
+}
+
 func (t *RbTree[K, V]) rbDeleteFixup(x, parent *Node[K, V]) {
 	var w *Node[K, V]
 	for x != t.root && getColor(x) {
-- 
2.43.0


From 165868ac2b85a6201792ce5c42b382309aa31da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 04/20] fix: lock the other operand in set Intersect, Union and
 Diff

They walked the other set without holding its lock, a data race with
concurrent changes of that set even when both are goroutine-safe.
---
 ds/set/set.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/ds/set/set.go b/ds/set/set.go
index 057be50..bb696f8 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -3,6 +3,7 @@ package set
 import (
 	"fmt"
 	gosync "sync"
+	"sync/atomic"
 
 	"github.com/liyue201/gostl/ds/rbtree"
 	"github.com/liyue201/gostl/utils/comparator"
@@ -17,6 +18,7 @@ const (
 
 var (
 	defaultLocker sync.FakeLocker
+	lastID        uint64
 )
 
 // Options holds the Set's options
@@ -41,6 +43,7 @@ type Set[T any] struct {
 	tree   *rbtree.RbTree[T, bool]
 	locker sync.Locker
 	keyCmp comparator.Comparator[T]
+	id     uint64 // creation order, the order in which two sets are locked
 }
 
 // New creates a new set
@@ -55,6 +58,26 @@ func New[T any](cmp comparator.Comparator[T], opts ...Option) *Set[T] {
 		tree:   rbtree.New[T, bool](cmp),
 		locker: option.locker,
 		keyCmp: cmp,
+		id:     atomic.AddUint64(&lastID, 1),
+	}
+}
+
+// rLockWith locks s and other for reading and returns the function that unlocks them.
+// Any two sets are always locked in the same order, so that concurrent calls can't deadlock.
+func (s *Set[T]) rLockWith(other *Set[T]) func() {
+	if s == other {
+		s.locker.RLock()
+		return s.locker.RUnlock
+	}
+	first, second := s, other
+	if first.id > second.id {
+		first, second = second, first
+	}
+	first.locker.RLock()
+	second.locker.RLock()
+	return func() {
+		second.locker.RUnlock()
+		first.locker.RUnlock()
 	}
 }
 
@@ -185,8 +208,7 @@ func (s *Set[T]) String() string {
 // Intersect returns a new set with the common elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
-	s.locker.RLock()
-	defer s.locker.RUnlock()
+	defer s.rLockWith(other)()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
@@ -209,8 +231,7 @@ func (s *Set[T]) Intersect(other *Set[T]) *Set[T] {
 // Union returns a new set with the all elements in the set s and the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Union(other *Set[T]) *Set[T] {
-	s.locker.RLock()
-	defer s.locker.RUnlock()
+	defer s.rLockWith(other)()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
@@ -241,8 +262,7 @@ func (s *Set[T]) Union(other *Set[T]) *Set[T] {
 // Diff returns a new set with the elements in the set s but not in the passed set
 // Please ensure s set and other set uses the same keyCmp
 func (s *Set[T]) Diff(other *Set[T]) *Set[T] {
-	s.locker.RLock()
-	defer s.locker.RUnlock()
+	defer s.rLockWith(other)()
 
 	set := New(s.keyCmp)
 	sIter := s.tree.IterFirst()
-- 
2.43.0


From 1756778318aa79f1ca5110ae28827b9a30c898f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 05/20] fix: stop a hamt traversal when the visitor returns
 false in a sub node

Returning false only ended the walk of the innermost bitmap node; the
visitor was called again for the entries of the nodes above it.
---
 ds/hamt/hamt.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ds/hamt/hamt.go b/ds/hamt/hamt.go
index 9ca1833..f5dcbd8 100644
--- a/ds/hamt/hamt.go
+++ b/ds/hamt/hamt.go
@@ -161,19 +161,23 @@ func (h *BitmapNode[T]) find(depth int, hash uint64, key Key) (T, error) {
 	return *new(T), ErrorNotFound
 }
 
-func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) {
+// traversal visits the entries below h, and returns false if the visitor stopped it
+func (h *BitmapNode[T]) traversal(visitor visitor.KvVisitor[Key, T]) bool {
 	for _, entry := range h.children {
 		if entry.Type() == BITMAP_NODE {
-			entry.(*BitmapNode[T]).traversal(visitor)
+			if !entry.(*BitmapNode[T]).traversal(visitor) {
+				return false
+			}
 		} else {
 			node := entry.(*KvNode[T])
 			for kv := node.kvList; kv != nil; kv = kv.next {
 				if !visitor(kv.key, kv.value) {
-					return
+					return false
 				}
 			}
 		}
 	}
+	return true
 }
 
 func (h *BitmapNode[T]) erase(depth int, hash uint64, key Key) bool {
-- 
2.43.0


From b6300d6e042f1d0ed5950efd72d1bebf72ec7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 06/20] fix: generate distinct hash values beyond the first
 eight

The inner data variable shadowed the outer one, so every round hashed the
seed itself and GenHashInts repeated the same eight values: bloom filters
with more than eight hash functions and ketama rings with more than eight
replicas got no further bits or points from them. The first eight values
are unchanged.
---
 algorithm/hash/hash.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/hash/hash.go b/algorithm/hash/hash.go
index 756d91f..be6ecd5 100644
--- a/algorithm/hash/hash.go
+++ b/algorithm/hash/hash.go
@@ -11,7 +11,7 @@ func GenHashInts(seed []byte, n int) []uint64 {
 	data := seed
 	var hashInts []uint64
 	for len(hashInts) < n {
-		data := Hash512(data)
+		data = Hash512(data)
 		temp := make([]uint64, len(data)/8)
 		buf := bytes.NewBuffer(data)
 		binary.Read(buf, binary.BigEndian, temp)
-- 
2.43.0


From c2ef7a8bd3925badb34a256e09935d01fe285916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 07/20] fix: check for an empty ketama ring under the lock used
 for the lookup

The check and the lookup took the lock separately, so Get dereferenced a nil
node when another goroutine removed the last node in between.
---
 ds/ketama/ketama.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ds/ketama/ketama.go b/ds/ketama/ketama.go
index a890a76..2d202ef 100644
--- a/ds/ketama/ketama.go
+++ b/ds/ketama/ketama.go
@@ -105,16 +105,15 @@ func (k *Ketama) Remove(nodes ...string) {
 
 // Get returns the node closest to key in the clockwise direction
 func (k *Ketama) Get(key string) (string, bool) {
-	if k.Empty() {
-		return "", false
-	}
-
 	hashs := hash.GenHashInts([]byte(salt+key), 1)
 	hash := hashs[0]
 
 	k.locker.Lock()
 	defer k.locker.Unlock()
 
+	if k.m.Size() == 0 {
+		return "", false
+	}
 	iter := k.m.LowerBound(hash)
 	if iter.IsValid() {
 		return iter.Value(), true
-- 
2.43.0


From 8716f79cfd892293d663895d20d4c8eccceae14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 08/20] fix: let Stable return on an empty range

An empty range recursed until the stack overflowed.
---
 algorithm/sort/stable_sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/stable_sort.go b/algorithm/sort/stable_sort.go
index 1765635..db1c07b 100644
--- a/algorithm/sort/stable_sort.go
+++ b/algorithm/sort/stable_sort.go
@@ -13,7 +13,7 @@ func Stable[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.
 }
 
 func mergeSort[T any](first, last iterator.RandomAccessIterator[T], cmp comparator.Comparator[T], tempSlice []T) {
-	if first.Position()+1 == last.Position() {
+	if first.Position()+1 >= last.Position() {
 		return
 	}
 	mid := first.IteratorAt((first.Position() + last.Position()) >> 1)
-- 
2.43.0


From 457f9a1f9abb5d28d9359b63c5393cd58582f957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 09/20] fix: order two-element ranges in NthElement

last is the last element here, so the guard also returned on ranges of two
elements, which were left unordered.
---
 algorithm/sort/nth_element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithm/sort/nth_element.go b/algorithm/sort/nth_element.go
index 9b434e1..57b8cf5 100644
--- a/algorithm/sort/nth_element.go
+++ b/algorithm/sort/nth_element.go
@@ -15,7 +15,7 @@ func NthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp
 }
 
 func nthElement[T any](first, last iterator.RandomAccessIterator[T], n int, cmp comparator.Comparator[T]) {
-	if first.Position()+1 >= last.Position() {
+	if first.Position() >= last.Position() {
 		return
 	}
 
-- 
2.43.0


From 9d9f7e4604fb4d49c0c79860bf67d65b738def21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 10/20] fix: leave an empty range alone in Reverse

The two ends of an empty range pass each other without ever being equal, so
Reverse swapped elements outside the range or panicked.
---
 algorithm/op.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algorithm/op.go b/algorithm/op.go
index 3762592..c3e194e 100644
--- a/algorithm/op.go
+++ b/algorithm/op.go
@@ -12,8 +12,11 @@ func Swap[T any](a, b iterator.Iterator[T]) {
 	b.SetValue(va)
 }
 
-// Reverse reverse the elements in the range [first, last]
+// Reverse reverse the elements in the range [first, last)
 func Reverse[T any](first, last iterator.BidIterator[T]) {
+	if first.Equal(last) {
+		return
+	}
 	left := first.Clone().(iterator.BidIterator[T])
 	right := last.Clone().(iterator.BidIterator[T]).Prev().(iterator.BidIterator[T])
 	for !left.Equal(right) {
-- 
2.43.0


From b0c092f03d2bf75cab859fa725e644b8781268ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 11/20] fix: let bidlist PushBackList and PushFrontList extend
 an empty list

They used the missing head node of an empty list and panicked.
---
 ds/list/bidlist/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index bde246e..a4a1932 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -269,7 +269,7 @@ func (l *List[T]) moveToAfter(n, at *Node[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
 	for i, n := other.Len(), other.FrontNode(); i > 0; i, n = i-1, n.Next() {
-		l.InsertAfter(n.Value, l.head.prev)
+		l.PushBack(n.Value)
 	}
 }
 
@@ -277,7 +277,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // The list and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
 	for i, e := other.Len(), other.BackNode(); i > 0; i, e = i-1, e.Prev() {
-		l.InsertBefore(e.Value, l.head)
+		l.PushFront(e.Value)
 	}
 }
 
-- 
2.43.0


From 751dcee61c08a9812b953a0eee8166be792a4760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 12/20] fix: let bidlist MoveAfter move the front node behind
 the back node

The front node follows the back node in the ring, so the move was taken for
one that changes nothing; it has to make the next node the front.
---
 ds/list/bidlist/list.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index a4a1932..bd3ebd8 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -251,12 +251,15 @@ func (l *List[T]) MoveAfter(n, mark *Node[T]) {
 }
 
 func (l *List[T]) moveToAfter(n, at *Node[T]) {
-	if n == at.next || n == at {
+	if n == at {
 		return
 	}
 	if n == l.head {
 		l.head = n.next
 	}
+	if n == at.next {
+		return
+	}
 	n.prev.next = n.next
 	n.next.prev = n.prev
 	n.next = at.next
-- 
2.43.0


From 82351dc37426051771e9cbd45661f196e31ac5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 13/20] fix: detach the nodes of a cleared bidlist

They still named the list as theirs, so removing, moving or inserting next to
one of them changed the length and the links of the cleared list.
---
 ds/list/bidlist/list.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index bd3ebd8..f6df5a1 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -190,8 +190,9 @@ func (l *List[T]) remove(n *Node[T]) *Node[T] {
 
 // Clear removes all nodes
 func (l *List[T]) Clear() {
-	l.head = nil
-	l.len = 0
+	for l.head != nil {
+		l.remove(l.head)
+	}
 }
 
 // PopBack removes the last node in the list and returns its value
-- 
2.43.0


From 447aa5649a50f1812fd725313ec80af1262bda42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 14/20] fix: let SliceWrapper.Last return the last position

It returned the end position, which is not valid, unlike Last of the other
sequences; a reverse loop from it did not run at all.
---
 ds/slice/slice_wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/slice_wrapper.go b/ds/slice/slice_wrapper.go
index 32c0935..608f9d7 100644
--- a/ds/slice/slice_wrapper.go
+++ b/ds/slice/slice_wrapper.go
@@ -60,6 +60,6 @@ func (s *SliceWrapper[T]) First() *SliceIterator[T] {
 // Last returns the last iterator of s
 func (s *SliceWrapper[T]) Last() *SliceIterator[T] {
 	return &SliceIterator[T]{s: s,
-		position: s.Len(),
+		position: s.Len() - 1,
 	}
 }
-- 
2.43.0


From 173053f4e8e05eca4df3c803600fe8251d4c1b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 15/20] fix: compare the wrapper in SliceIterator.Equal

Iterators of different slice wrappers were equal if their positions were.
---
 ds/slice/iterator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/slice/iterator.go b/ds/slice/iterator.go
index c7e22dd..f0048e7 100644
--- a/ds/slice/iterator.go
+++ b/ds/slice/iterator.go
@@ -69,7 +69,7 @@ func (iter *SliceIterator[T]) Equal(other iterator.ConstIterator[T]) bool {
 	if !ok {
 		return false
 	}
-	if otherIter.position == iter.position {
+	if otherIter.s == iter.s && otherIter.position == iter.position {
 		return true
 	}
 	return false
-- 
2.43.0


From 896c583f7ce893da56372f95c9c4bc8b3a22c3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 16/20] fix: leave a simplelist unmodified when inserting after
 a foreign node

As documented on InsertAfter: it counted the new node and possibly made it
the tail of a list that does not contain it.
---
 ds/list/simplelist/simplelist.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ds/list/simplelist/simplelist.go b/ds/list/simplelist/simplelist.go
index dbbaa57..aca8567 100644
--- a/ds/list/simplelist/simplelist.go
+++ b/ds/list/simplelist/simplelist.go
@@ -9,6 +9,7 @@ import (
 type Node[T any] struct {
 	next  *Node[T]
 	Value T
+	list  *List[T] // the list the node is in, nil if none
 }
 
 // Next returns the next list node or nil.
@@ -49,7 +50,7 @@ func (l *List[T]) BackNode() *Node[T] {
 
 // PushFront inserts a new node n with value v at the front of the list.
 func (l *List[T]) PushFront(v T) {
-	n := &Node[T]{Value: v}
+	n := &Node[T]{Value: v, list: l}
 	if l.len == 0 {
 		l.head = n
 		l.tail = n
@@ -62,7 +63,7 @@ func (l *List[T]) PushFront(v T) {
 
 // PushBack inserts a new node n with value v at the back of the list.
 func (l *List[T]) PushBack(v T) {
-	n := &Node[T]{Value: v}
+	n := &Node[T]{Value: v, list: l}
 	if l.len == 0 {
 		l.head = n
 		l.tail = n
@@ -77,7 +78,10 @@ func (l *List[T]) PushBack(v T) {
 // If mark is not a node of the list, the list is not modified.
 // The mark must not be nil.
 func (l *List[T]) InsertAfter(v T, mark *Node[T]) *Node[T] {
-	return l.insertAfter(&Node[T]{Value: v}, mark)
+	if mark.list != l {
+		return nil
+	}
+	return l.insertAfter(&Node[T]{Value: v, list: l}, mark)
 }
 
 func (l *List[T]) insertAfter(n, at *Node[T]) *Node[T] {
@@ -107,6 +111,7 @@ func (l *List[T]) Remove(pre, n *Node[T]) T {
 			l.tail = pre
 		}
 	}
+	n.list = nil
 	l.len--
 	return n.Value
 }
-- 
2.43.0


From 8d0c93f5bad7ac43d8271c7c3803aac76aecb24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 17/20] fix: serve equal priorities of a priority queue in push
 order

The README promises that elements with the same priority are served in their
order in the queue, but a plain binary heap returned them in any order.
---
 ds/priorityqueue/priority_queue.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ds/priorityqueue/priority_queue.go b/ds/priorityqueue/priority_queue.go
index 8f2371e..3affd1a 100644
--- a/ds/priorityqueue/priority_queue.go
+++ b/ds/priorityqueue/priority_queue.go
@@ -15,12 +15,16 @@ var (
 // ElementHolder holds elements of the PriorityQueue
 type ElementHolder[T any] struct {
 	elements []T
+	seqs     []uint64 // seqs[i] is the push order of elements[i], it breaks ties between equal priorities
+	nextSeq  uint64
 	cmpFun   comparator.Comparator[T]
 }
 
 // Push pushes an element to the ElementHolder
 func (h *ElementHolder[T]) Push(element T) {
 	h.elements = append(h.elements, element)
+	h.seqs = append(h.seqs, h.nextSeq)
+	h.nextSeq++
 }
 
 // Pop pops an element from the ElementHolder
@@ -30,6 +34,7 @@ func (h *ElementHolder[T]) Pop() T {
 	}
 	item := h.elements[h.Len()-1]
 	h.elements = h.elements[:h.Len()-1]
+	h.seqs = h.seqs[:h.Len()]
 	return item
 }
 
@@ -45,14 +50,19 @@ func (h *ElementHolder[T]) Len() int {
 	return len(h.elements)
 }
 
-// Len compare two elements at position i and j , and returns true if elements[i] < elements[j]
+// Less compares two elements at position i and j, and returns true if elements[i] < elements[j],
+// or if they are equal and elements[i] was pushed earlier
 func (h *ElementHolder[T]) Less(i, j int) bool {
-	return h.cmpFun(h.elements[i], h.elements[j]) < 0
+	if ret := h.cmpFun(h.elements[i], h.elements[j]); ret != 0 {
+		return ret < 0
+	}
+	return h.seqs[i] < h.seqs[j]
 }
 
 // Swap swaps two elements at position i and j
 func (h *ElementHolder[T]) Swap(i, j int) {
 	h.elements[i], h.elements[j] = h.elements[j], h.elements[i]
+	h.seqs[i], h.seqs[j] = h.seqs[j], h.seqs[i]
 }
 
 // Options holds PriorityQueue's options
@@ -133,6 +143,7 @@ func (q *PriorityQueue[T]) Clear() {
 
 	// reset cap to zero
 	q.holder.elements = q.holder.elements[:0]
+	q.holder.seqs = q.holder.seqs[:0]
 }
 
 // Size returns the amount of elements in the queue
-- 
2.43.0


From 545308732cbf0bb5df894b68ee40ed9b8a97aa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 18/20] fix: separate the elements in String also after an
 empty first one

Whether to write a separator was decided by whether anything had been
written, so leading elements that print as nothing disappeared: a list of ""
and "a" printed as [a], like a list of "a" alone.
---
 ds/deque/deque.go                | 2 +-
 ds/list/bidlist/list.go          | 2 +-
 ds/list/simplelist/simplelist.go | 2 +-
 ds/set/multiset.go               | 4 +++-
 ds/set/set.go                    | 4 +++-
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ds/deque/deque.go b/ds/deque/deque.go
index aced69f..7f39cf3 100644
--- a/ds/deque/deque.go
+++ b/ds/deque/deque.go
@@ -387,7 +387,7 @@ func (d *Deque[T]) preIndex(index int) int {
 func (d *Deque[T]) String() string {
 	str := "["
 	for i := 0; i < d.Size(); i++ {
-		if str != "[" {
+		if i > 0 {
 			str += " "
 		}
 		str += fmt.Sprintf("%v", d.At(i))
diff --git a/ds/list/bidlist/list.go b/ds/list/bidlist/list.go
index f6df5a1..b5baf82 100644
--- a/ds/list/bidlist/list.go
+++ b/ds/list/bidlist/list.go
@@ -289,7 +289,7 @@ func (l *List[T]) PushFrontList(other *List[T]) {
 func (l *List[T]) String() string {
 	str := "["
 	for n := l.FrontNode(); n != nil; n = n.Next() {
-		if str != "[" {
+		if n != l.FrontNode() {
 			str += " "
 		}
 		str += fmt.Sprintf("%v", n.Value)
diff --git a/ds/list/simplelist/simplelist.go b/ds/list/simplelist/simplelist.go
index aca8567..4e5c397 100644
--- a/ds/list/simplelist/simplelist.go
+++ b/ds/list/simplelist/simplelist.go
@@ -150,7 +150,7 @@ func (l *List[T]) MoveToBack(pre, n *Node[T]) {
 func (l *List[T]) String() string {
 	str := "["
 	for n := l.FrontNode(); n != nil; n = n.Next() {
-		if str != "[" {
+		if n != l.FrontNode() {
 			str += " "
 		}
 		str += fmt.Sprintf("%v", n.Value)
diff --git a/ds/set/multiset.go b/ds/set/multiset.go
index 2ae7a3f..bb83038 100644
--- a/ds/set/multiset.go
+++ b/ds/set/multiset.go
@@ -166,10 +166,12 @@ func (ms *MultiSet[T]) Traversal(visitor visitor.Visitor[T]) {
 // String returns s string representation of the MultiSet
 func (ms *MultiSet[T]) String() string {
 	str := "["
+	first := true
 	ms.Traversal(func(value T) bool {
-		if str != "[" {
+		if !first {
 			str += " "
 		}
+		first = false
 		str += fmt.Sprintf("%v", value)
 		return true
 	})
diff --git a/ds/set/set.go b/ds/set/set.go
index bb696f8..fcdbb6d 100644
--- a/ds/set/set.go
+++ b/ds/set/set.go
@@ -194,10 +194,12 @@ func (s *Set[T]) Traversal(visitor visitor.Visitor[T]) {
 // String returns a string representation of the set
 func (s *Set[T]) String() string {
 	str := "["
+	first := true
 	s.Traversal(func(value T) bool {
-		if str != "[" {
+		if !first {
 			str += " "
 		}
+		first = false
 		str += fmt.Sprintf("%v", value)
 		return true
 	})
-- 
2.43.0


From 6fd9279a656958711966ae681d326b3130b8630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 19/20] fix: Reverse ranges whose end cannot step back

---
 algorithm/op.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/algorithm/op.go b/algorithm/op.go
index c3e194e..0eb6723 100644
--- a/algorithm/op.go
+++ b/algorithm/op.go
@@ -19,6 +19,13 @@ func Reverse[T any](first, last iterator.BidIterator[T]) {
 	}
 	left := first.Clone().(iterator.BidIterator[T])
 	right := last.Clone().(iterator.BidIterator[T]).Prev().(iterator.BidIterator[T])
+	if !right.IsValid() {
+		// last is an end that cannot step back, as those of lists and maps
+		right = first.Clone().(iterator.BidIterator[T])
+		for next := right.Clone().Next(); !next.Equal(last); next.Next() {
+			right.Next()
+		}
+	}
 	for !left.Equal(right) {
 		Swap(left.(iterator.Iterator[T]), right.(iterator.Iterator[T]))
 		left.Next()
-- 
2.43.0


From 619fc9ffaeb98a8c62a6e3e19d310d376ab2f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 20/20] fix: EraseAt near the back of a deque shifts the
 elements behind, not all in front

The number of segments was compared with the number of elements, so that
EraseAt moved elements through every segment in front of the position even
when it was the last one.
---
 ds/deque/deque.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ds/deque/deque.go b/ds/deque/deque.go
index 7f39cf3..f6ec9d4 100644
--- a/ds/deque/deque.go
+++ b/ds/deque/deque.go
@@ -219,7 +219,7 @@ func (d *Deque[T]) EraseAt(pos int) {
 	}
 	seg, pos := d.pos(pos)
 	d.segmentAt(seg).eraseAt(pos)
-	if seg < d.size-seg-1 {
+	if seg < d.segUsed()-seg-1 {
 		for i := seg; i > 0; i-- {
 			cur := d.segmentAt(i)
 			pre := d.segmentAt(i - 1)
-- 
2.43.0

