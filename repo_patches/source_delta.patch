From 66864b9bced2deef6591fc078a8b1d48357a5270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 01/20] fix: stop walking addresses at the end of the IPv4
 address space

walkAddresses looped with a <= last; when last is 255.255.255.255 the counter
wrapped to 0.0.0.0 and the walk never ended.
---
 ipv4/prefix.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ipv4/prefix.go b/ipv4/prefix.go
index fef78d1..a7e90f0 100644
--- a/ipv4/prefix.go
+++ b/ipv4/prefix.go
@@ -211,12 +211,16 @@ func (me Prefix) Uint32() (address, mask uint32) {
 // It returns false if iteration was stopped due to a callback return false or
 // true if it iterated all items.
 func (me Prefix) walkAddresses(callback func(Address) bool) bool {
-	for a := me.Network().addr.Uint32(); a <= me.Broadcast().addr.Uint32(); a++ {
-		if !callback(Address{a}) {
+	last := me.Broadcast().addr
+	for a := me.Network().addr; ; a.ui++ {
+		if !callback(a) {
 			return false
 		}
+		// Compare before incrementing, incrementing past 255.255.255.255 wraps
+		if a == last {
+			return true
+		}
 	}
-	return true
 }
 
 // Range returns the range that includes the same addresses as the prefix
-- 
2.43.0


From dc67cfcaa20dc05ef35bd1c2c887775e2c703dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 02/20] fix: Range.Plus with a range that ends at the last
 address

next() overflows to zero for such a range so the two ranges were always
considered disjoint, even when one contained or overlapped the other.
---
 ipv4/range.go | 2 +-
 ipv6/range.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/range.go b/ipv4/range.go
index 358d71f..1195ca2 100644
--- a/ipv4/range.go
+++ b/ipv4/range.go
@@ -84,7 +84,7 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
diff --git a/ipv6/range.go b/ipv6/range.go
index b21c533..be00d9c 100644
--- a/ipv6/range.go
+++ b/ipv6/range.go
@@ -78,7 +78,7 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
-- 
2.43.0


From a03a3f9dd2adb35dc611590296a61dcd09a68a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 03/20] fix: ignore host bits when a Prefix is converted to a
 Set

The documentation says that they are ignored, but they were kept in the
stored prefix. Sets with the same addresses did not compare equal and walking
returned prefixes and strings with host bits.
---
 ipv4/setnode.go | 11 ++++++++---
 ipv6/setnode.go | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 6e3c2a3..8926b96 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -15,9 +15,14 @@ type setNode trieNode
 func setNodeFromPrefix(p Prefix) *setNode {
 	return &setNode{
 		isActive: true,
-		Prefix:   p,
-		size:     1,
-		h:        1,
+		Prefix: Prefix{
+			addr: Address{
+				ui: p.addr.ui & ^(uint32(0xffffffff) >> p.length), // zero out the host bits
+			},
+			length: p.length,
+		},
+		size: 1,
+		h:    1,
 	}
 }
 
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 15d788a..6ce69bf 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -14,9 +14,14 @@ type setNode trieNode
 func setNodeFromPrefix(p Prefix) *setNode {
 	return &setNode{
 		isActive: true,
-		Prefix:   p,
-		size:     1,
-		h:        1,
+		Prefix: Prefix{
+			addr: Address{
+				ui: p.addr.ui.and(uint128{0xffffffffffffffff, 0xffffffffffffffff}.rightShift(int(p.length)).complement()), // zero out the host bits
+			},
+			length: p.length,
+		},
+		size: 1,
+		h:    1,
 	}
 }
 
-- 
2.43.0


From b49fd7e0e58ea8de867d52ac4ae301f331243eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 04/20] fix: only call the mapper passed to Map for entries in
 the table

It was also called, with a zero value, for prefixes of internal nodes which
are not entries. With a custom comparator, that resulted in a panic because
internal nodes have no value to compare.
---
 ipv4/node.go | 8 +++++---
 ipv6/node.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 4266026..11f5402 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -830,9 +830,11 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
diff --git a/ipv6/node.go b/ipv6/node.go
index fe642b1..e4947a9 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -826,9 +826,11 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
-- 
2.43.0


From 91531a64f03633f065b45727785054a14e6325bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 05/20] fix: allow nil interface values in tables with a custom
 comparator

Comparing one panicked if the type of the values in the table is an interface
type.
---
 ipv4/table.go | 6 +++++-
 ipv6/table.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index 95773e2..23a1056 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -28,7 +28,11 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// The interface is nil if T is an interface type and the
+				// value is a nil one.
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
diff --git a/ipv6/table.go b/ipv6/table.go
index 81889d2..2f426ad 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -28,7 +28,11 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// The interface is nil if T is an interface type and the
+				// value is a nil one.
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
-- 
2.43.0


From de1b185af26a1902aebb7bec5a5cbaa5e13e2161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:42 +0000
Subject: [PATCH 06/20] fix: keep the comparator in an aggregated Table

Without it, operations which compare values (Diff, Map, Aggregate) panicked
and a mutable table made from it fell back to the default comparator.
---
 ipv4/table.go | 1 +
 ipv6/table.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ipv4/table.go b/ipv4/table.go
index 23a1056..78e9d2b 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -225,6 +225,7 @@ func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
 			trie: me.t.trie.Aggregate(me.t.eq),
+			eq:   me.t.eq,
 		},
 	}
 }
diff --git a/ipv6/table.go b/ipv6/table.go
index 2f426ad..c2f2f74 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -225,6 +225,7 @@ func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
 			trie: me.t.trie.Aggregate(me.t.eq),
+			eq:   me.t.eq,
 		},
 	}
 }
-- 
2.43.0


From 8c112739c0a1b10d35413e6d9b0db2a28d47099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 07/20] fix: don't panic modifying tables with values that
 aren't comparable

A table with a custom comparator can have values of any type but nodes were
compared with == to find out if they had changed.
---
 ipv4/node.go | 36 +++++++++++++++++++++++++-----------
 ipv6/node.go | 36 +++++++++++++++++++++++++-----------
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 11f5402..c9c0569 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -116,6 +116,9 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
+// copyMutate mutates a copy of the node. If that makes no difference, the
+// original node is returned. It does not compare Data, which might not even be
+// comparable, so the mutator must not change only that.
 func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	if me == nil {
 		return nil
@@ -123,7 +126,7 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	doppelganger := &trieNode{}
 	*doppelganger = *me
 	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	if mutated.isActive == me.isActive && mutated.children == me.children {
 		return me
 	}
 	return mutated
@@ -829,16 +832,27 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
-		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
-			}
-		}
-		n.children = [2]*trieNode{
-			me.children[0].Map(mapper, eq),
-			me.children[1].Map(mapper, eq),
+	if me == nil {
+		return nil
+	}
+	data, same := me.Data, true
+	if me.isActive {
+		data = mapper(me.Prefix, me.Data)
+		same = eq(me.Data, data)
+	}
+	children := [2]*trieNode{
+		me.children[0].Map(mapper, eq),
+		me.children[1].Map(mapper, eq),
+	}
+	if same && children == me.children {
+		return me
+	}
+	doppelganger := &trieNode{}
+	*doppelganger = *me
+	return doppelganger.mutate(func(n *trieNode) {
+		if !same {
+			n.Data = data
 		}
+		n.children = children
 	})
 }
diff --git a/ipv6/node.go b/ipv6/node.go
index e4947a9..d6c166d 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -115,6 +115,9 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
+// copyMutate mutates a copy of the node. If that makes no difference, the
+// original node is returned. It does not compare Data, which might not even be
+// comparable, so the mutator must not change only that.
 func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	if me == nil {
 		return nil
@@ -122,7 +125,7 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	doppelganger := &trieNode{}
 	*doppelganger = *me
 	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	if mutated.isActive == me.isActive && mutated.children == me.children {
 		return me
 	}
 	return mutated
@@ -825,16 +828,27 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
-		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
-			}
-		}
-		n.children = [2]*trieNode{
-			me.children[0].Map(mapper, eq),
-			me.children[1].Map(mapper, eq),
+	if me == nil {
+		return nil
+	}
+	data, same := me.Data, true
+	if me.isActive {
+		data = mapper(me.Prefix, me.Data)
+		same = eq(me.Data, data)
+	}
+	children := [2]*trieNode{
+		me.children[0].Map(mapper, eq),
+		me.children[1].Map(mapper, eq),
+	}
+	if same && children == me.children {
+		return me
+	}
+	doppelganger := &trieNode{}
+	*doppelganger = *me
+	return doppelganger.mutate(func(n *trieNode) {
+		if !same {
+			n.Data = data
 		}
+		n.children = children
 	})
 }
-- 
2.43.0


From d605242a1faffd15fd2300d7ac24a558ae317cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 08/20] fix: don't compare values of nodes without an entry in
 Aggregate

It panicked with a custom comparator if the table had disjoint prefixes.
---
 ipv4/node.go | 2 +-
 ipv6/node.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index c9c0569..5096a52 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -760,7 +760,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
diff --git a/ipv6/node.go b/ipv6/node.go
index d6c166d..fce755b 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -756,7 +756,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
-- 
2.43.0


From c66012e22d3412abadcafa54075ccc764b1a73b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 09/20] fix: keep longer prefixes when Aggregate combines two
 halves

When the two halves of a prefix had the same value, they were combined but any
longer prefixes that they contained, with different values, were lost.
---
 ipv4/node.go | 5 ++++-
 ipv6/node.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 5096a52..2baaf53 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -806,7 +806,10 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// Only the two halves are combined, keep any longer prefixes in them
+		for i, child := range children {
+			children[i], _ = child.Delete(child.Prefix)
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index fce755b..01027b7 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -802,7 +802,10 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// Only the two halves are combined, keep any longer prefixes in them
+		for i, child := range children {
+			children[i], _ = child.Delete(child.Prefix)
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From 958b4678f3fb82fc598da364385cd0013542e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 10/20] fix: drop prefixes made redundant by combining halves
 in Aggregate

The combined prefix can end up with the same value as the closest prefix which
contains it. In this case, only the broader one is needed.
---
 ipv4/node.go | 5 +++++
 ipv6/node.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 2baaf53..35c41d2 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -810,6 +810,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		for i, child := range children {
 			children[i], _ = child.Delete(child.Prefix)
 		}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			// The combined prefix is redundant with the one containing it
+			isActive = false
+			data = nil
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index 01027b7..ba7315d 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -806,6 +806,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		for i, child := range children {
 			children[i], _ = child.Delete(child.Prefix)
 		}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			// The combined prefix is redundant with the one containing it
+			isActive = false
+			data = nil
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From 800d52ef045abc3c480baddb1368093fdddac590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 11/20] fix: allow nil for the reserved set in
 FindAvailablePrefix

A nil SetI is documented to be treated as an empty set but it panicked.
---
 ipv4/set.go | 3 +++
 ipv6/set.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index 3cd3c42..eb145f7 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -346,6 +346,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
diff --git a/ipv6/set.go b/ipv6/set.go
index ae95cb3..81b7c71 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
-- 
2.43.0


From 9e8fa506f30579dc471dc85a7d6874e25601794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 12/20] fix: return an error from FindAvailablePrefix if length
 is invalid

It returned an invalid Prefix with a length longer than an address.
---
 ipv4/set.go | 3 +++
 ipv6/set.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index eb145f7..4f3d5e5 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -349,6 +349,9 @@ func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error)
 	if reserved == nil {
 		reserved = Set{}
 	}
+	if uint32(addressSize) < length {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
diff --git a/ipv6/set.go b/ipv6/set.go
index 81b7c71..6d13613 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -337,6 +337,9 @@ func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error)
 	if reserved == nil {
 		reserved = Set{}
 	}
+	if uint32(addressSize) < length {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
-- 
2.43.0


From 1ec1376284da02ed2209022acfe101720ed08851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 13/20] fix: return errors counting prefixes in an IPv4 Set or
 Range

An invalid length was silently ignored, unlike counting prefixes in a Prefix
or in an IPv6 Set.
---
 ipv4/set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 4f3d5e5..e02da1c 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -251,7 +251,11 @@ func (me Set) NumPrefixes(length uint32) (count uint64, err error) {
 	// NOTE This could be done more efficiently with its own recursive
 	// implementation that stops descending when the prefixes are too small.
 	me.WalkPrefixes(func(p Prefix) bool {
-		c, _ := p.NumPrefixes(length)
+		c, e := p.NumPrefixes(length)
+		if e != nil {
+			err = e
+			return false
+		}
 		count += c
 		return true
 	})
-- 
2.43.0


From 2063f855f104f3ea1d837c5004d5e22e4b5aba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 14/20] fix: return IPv6 notation from String for IPv4-mapped
 addresses

It returned dotted-quad notation for addresses in ::ffff:0:0/96. A Prefix with
one of them printed as 203.0.113.17/120 which cannot be parsed back.
---
 ipv6/address.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipv6/address.go b/ipv6/address.go
index 4f3b609..4e7dff0 100644
--- a/ipv6/address.go
+++ b/ipv6/address.go
@@ -100,7 +100,12 @@ func (me Address) Set() Set {
 
 // String returns a string representing the address in IPv6 notation
 func (me Address) String() string {
-	return me.ToNetIP().String()
+	ip := me.ToNetIP()
+	if ipv4 := ip.To4(); ipv4 != nil {
+		// net.IP does not distinguish an IPv4-mapped address from IPv4
+		return "::ffff:" + ipv4.String()
+	}
+	return ip.String()
 }
 
 // NumBits returns the size of an address (always 128)
-- 
2.43.0


From 76b654cf16a5dca3192ac571fb70aa5a3c7e18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 15/20] fix: parse IPv4-mapped IPv6 addresses

::ffff:203.0.113.17 is a valid IPv6 address in colon notation. It was accepted
by PrefixFromString but not by AddressFromString.
---
 ipv6/address.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv6/address.go b/ipv6/address.go
index 4e7dff0..0d2df4f 100644
--- a/ipv6/address.go
+++ b/ipv6/address.go
@@ -3,6 +3,7 @@ package ipv6
 import (
 	"fmt"
 	"net"
+	"strings"
 )
 
 const (
@@ -53,8 +54,7 @@ func AddressFromString(address string) (Address, error) {
 		return Address{}, fmt.Errorf("failed to parse address: %s", address)
 	}
 
-	netIPv4 := netIP.To4()
-	if netIPv4 != nil {
+	if !strings.Contains(address, ":") {
 		return Address{}, fmt.Errorf("address is not IPv6: %s", address)
 	}
 
-- 
2.43.0


From 6233442648d7f7e6253c84f8a68f2323b5ea7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 16/20] fix: load the trie atomically when reading a Set_ or
 Table_

Reading while another goroutine writes is documented to be safe but the trie
pointer was read without any synchronization, which is a data race.
---
 ipv4/set.go           | 16 ++++++++--------
 ipv4/tablex.go        | 13 ++++++++-----
 ipv4/unsafe_atomic.go | 16 ++++++++++++++++
 ipv6/set.go           | 16 ++++++++--------
 ipv6/tablex.go        | 13 ++++++++-----
 ipv6/unsafe_atomic.go | 16 ++++++++++++++++
 6 files changed, 64 insertions(+), 26 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index e02da1c..bf675e2 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -29,13 +29,13 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
+	oldNode := loadSetNodePtr(&me.s.trie)
 	ok, newNode := mutator()
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
@@ -83,7 +83,7 @@ func (me Set_) NumAddresses() int64 {
 	if me.s == nil {
 		return 0
 	}
-	return me.s.NumAddresses()
+	return me.Set().NumAddresses()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -91,7 +91,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().NumAddresses() == 0
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -99,7 +99,7 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.NumAddresses() == 0
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
@@ -114,7 +114,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -125,7 +125,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -137,7 +137,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 8e30234..4301101 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -60,12 +60,12 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
+	oldNode := loadTrieNodePtr(&me.m.trie)
 	ok, newNode := mutator()
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
@@ -140,7 +140,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -170,7 +170,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -200,7 +200,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		trie: loadTrieNodePtr(&me.m.trie),
+		eq:   me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv4/unsafe_atomic.go b/ipv4/unsafe_atomic.go
index 1b84ca7..dc9e0a4 100644
--- a/ipv4/unsafe_atomic.go
+++ b/ipv4/unsafe_atomic.go
@@ -5,6 +5,22 @@ import (
 	"unsafe"
 )
 
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(atomic.LoadPointer(
+		(*unsafe.Pointer)(
+			unsafe.Pointer(ptr),
+		),
+	))
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(atomic.LoadPointer(
+		(*unsafe.Pointer)(
+			unsafe.Pointer(ptr),
+		),
+	))
+}
+
 func swapTrieNodePtr(ptr **trieNode, old, new *trieNode) bool {
 	return atomic.CompareAndSwapPointer(
 		(*unsafe.Pointer)(
diff --git a/ipv6/set.go b/ipv6/set.go
index 6d13613..5fdfb8f 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -30,7 +30,7 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
@@ -51,7 +51,7 @@ func (me Set) Build(builder func(Set_) bool) Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
+	oldNode := loadSetNodePtr(&me.s.trie)
 	ok, newNode := mutator()
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
@@ -94,7 +94,7 @@ func (me Set_) IsEmpty() bool {
 	if me.s == nil {
 		return true
 	}
-	return me.s.IsEmpty()
+	return me.Set().IsEmpty()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -102,7 +102,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().IsEmpty()
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -110,7 +110,7 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.IsEmpty()
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
@@ -125,7 +125,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -136,7 +136,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -148,7 +148,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 9327206..b19e87d 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -60,12 +60,12 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
+	oldNode := loadTrieNodePtr(&me.m.trie)
 	ok, newNode := mutator()
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
@@ -140,7 +140,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -170,7 +170,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -200,7 +200,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		trie: loadTrieNodePtr(&me.m.trie),
+		eq:   me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv6/unsafe_atomic.go b/ipv6/unsafe_atomic.go
index f72d6bb..1e00248 100644
--- a/ipv6/unsafe_atomic.go
+++ b/ipv6/unsafe_atomic.go
@@ -5,6 +5,22 @@ import (
 	"unsafe"
 )
 
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(atomic.LoadPointer(
+		(*unsafe.Pointer)(
+			unsafe.Pointer(ptr),
+		),
+	))
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(atomic.LoadPointer(
+		(*unsafe.Pointer)(
+			unsafe.Pointer(ptr),
+		),
+	))
+}
+
 func swapTrieNodePtr(ptr **trieNode, old, new *trieNode) bool {
 	return atomic.CompareAndSwapPointer(
 		(*unsafe.Pointer)(
-- 
2.43.0


From 3f0d5554e38709c6b628eaf668f30cae409a1696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 17/20] fix: modify the same trie that is checked for
 concurrent modification

The trie was read again after the one used to detect concurrent modification.
If other writes changed it and then restored it around that second read, the
result of those writes was lost without a panic.
---
 ipv4/set.go    | 19 ++++++++++++++-----
 ipv4/tablex.go | 31 ++++++++++++++++++++-----------
 ipv6/set.go    | 19 ++++++++++++++-----
 ipv6/tablex.go | 31 ++++++++++++++++++++-----------
 4 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index bf675e2..fed04d9 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -35,8 +35,17 @@ func (me Set_) Set() Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.mutateNode(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateNode is like mutate but passes the current trie to the mutator. Using
+// it guarantees that the modification is based on the same trie that is
+// checked to detect concurrent modification.
+func (me Set_) mutateNode(mutator func(trie *setNode) (ok bool, newNode *setNode)) {
 	oldNode := loadSetNodePtr(&me.s.trie)
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -53,8 +62,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.mutateNode(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Union(other.Set().trie)
 	})
 }
 
@@ -68,8 +77,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.mutateNode(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 4301101..f930088 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -65,8 +65,17 @@ func (me tableX_) NumEntries() int64 {
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.mutateNode(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateNode is like mutate but passes the current trie to the mutator. Using
+// it guarantees that the modification is based on the same trie that is
+// checked to detect concurrent modification.
+func (me tableX_) mutateNode(mutator func(trie *trieNode) (ok bool, node *trieNode)) {
 	oldNode := loadTrieNodePtr(&me.m.trie)
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +94,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = trie.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +116,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = trie.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +136,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateNode(func(trie *trieNode) (bool, *trieNode) {
+		return true, trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +163,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = trie.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +194,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = trie.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
diff --git a/ipv6/set.go b/ipv6/set.go
index 5fdfb8f..ca1cf48 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -51,8 +51,17 @@ func (me Set) Build(builder func(Set_) bool) Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.mutateNode(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateNode is like mutate but passes the current trie to the mutator. Using
+// it guarantees that the modification is based on the same trie that is
+// checked to detect concurrent modification.
+func (me Set_) mutateNode(mutator func(trie *setNode) (ok bool, newNode *setNode)) {
 	oldNode := loadSetNodePtr(&me.s.trie)
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -69,8 +78,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.mutateNode(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Union(other.Set().trie)
 	})
 }
 
@@ -84,8 +93,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.mutateNode(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index b19e87d..791db1c 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -65,8 +65,17 @@ func (me tableX_) NumEntries() int64 {
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.mutateNode(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateNode is like mutate but passes the current trie to the mutator. Using
+// it guarantees that the modification is based on the same trie that is
+// checked to detect concurrent modification.
+func (me tableX_) mutateNode(mutator func(trie *trieNode) (ok bool, node *trieNode)) {
 	oldNode := loadTrieNodePtr(&me.m.trie)
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +94,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = trie.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +116,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = trie.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +136,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateNode(func(trie *trieNode) (bool, *trieNode) {
+		return true, trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +163,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = trie.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +194,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = trie.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
-- 
2.43.0


From 0485e8f29d620afb5328446d0bc8295bedf26a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 18/20] fix: Remove returns false for a prefix without an entry
 between two entries

---
 ipv4/node.go | 3 +++
 ipv6/node.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 35c41d2..0137591 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -499,6 +499,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
diff --git a/ipv6/node.go b/ipv6/node.go
index ba7315d..5c686e4 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -495,6 +495,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
-- 
2.43.0


From 110a82221f349fac2e5ed536a6488ed12fca9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 19/20] fix: Diff visits disjoint prefixes in order whichever
 is longer

---
 ipv4/node.go | 5 +++--
 ipv6/node.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 0137591..ca318c8 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -612,9 +612,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -674,7 +675,7 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
+		if (child == 0) != reversed { // (child == 0) XOR reversed
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
diff --git a/ipv6/node.go b/ipv6/node.go
index 5c686e4..b3e63e0 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -608,9 +608,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -670,7 +671,7 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
+		if (child == 0) != reversed { // (child == 0) XOR reversed
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
-- 
2.43.0


From 3297bcad751d4e56c29c68a07058fa11b71094f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 20/20] fix: a range which isn't aligned is not a single prefix

---
 ipv4/setnode.go | 2 +-
 ipv6/setnode.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 8926b96..3a4bddb 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -32,7 +32,7 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := bits.LeadingZeros32(xor)
 
-	if numCommonBits == bits.OnesCount32(^xor) {
+	if numCommonBits == bits.OnesCount32(^xor) && r.first.ui&xor == 0 {
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 6ce69bf..2f1caa5 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -31,7 +31,7 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := xor.leadingZeros()
 
-	if numCommonBits == xor.complement().onesCount() {
+	if numCommonBits == xor.complement().onesCount() && r.first.ui.and(xor) == (uint128{}) {
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
-- 
2.43.0

