From 5c9c6b3b6149ac91e57ccfb59288f48ae57f6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 1/8] fix: remove contained IPv6 networks shorter than 64 bits
 in uintX iptree DeleteByNet

DeleteByNet removed only the exactly matching entry for IPv6 networks with
a prefix shorter than 64 bits, while IPv4 networks, longer IPv6 prefixes and
the iptree package remove every network contained in the given one.
---
 uintX/iptree16/iptree.go              | 6 +++++-
 uintX/iptree32/iptree.go              | 6 +++++-
 uintX/iptree64/iptree.go              | 6 +++++-
 uintX/iptree8/iptree.go               | 6 +++++-
 uintX/iptree{{.bits}}/iptree.{{.ext}} | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/uintX/iptree16/iptree.go b/uintX/iptree16/iptree.go
index 9a4f7ec..41bff9b 100644
--- a/uintX/iptree16/iptree.go
+++ b/uintX/iptree16/iptree.go
@@ -169,7 +169,11 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			if r64, ok := t.root64.Delete(MSKey, MSBits); ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree32/iptree.go b/uintX/iptree32/iptree.go
index 6a505d6..ff6d066 100644
--- a/uintX/iptree32/iptree.go
+++ b/uintX/iptree32/iptree.go
@@ -169,7 +169,11 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			if r64, ok := t.root64.Delete(MSKey, MSBits); ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree64/iptree.go b/uintX/iptree64/iptree.go
index 6ffa3ae..6d881a6 100644
--- a/uintX/iptree64/iptree.go
+++ b/uintX/iptree64/iptree.go
@@ -169,7 +169,11 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			if r64, ok := t.root64.Delete(MSKey, MSBits); ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree8/iptree.go b/uintX/iptree8/iptree.go
index 9a98de8..d4a4a8b 100644
--- a/uintX/iptree8/iptree.go
+++ b/uintX/iptree8/iptree.go
@@ -169,7 +169,11 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			if r64, ok := t.root64.Delete(MSKey, MSBits); ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree{{.bits}}/iptree.{{.ext}} b/uintX/iptree{{.bits}}/iptree.{{.ext}}
index d3790c3..a438fc2 100644
--- a/uintX/iptree{{.bits}}/iptree.{{.ext}}
+++ b/uintX/iptree{{.bits}}/iptree.{{.ext}}
@@ -169,7 +169,11 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			if r64, ok := t.root64.Delete(MSKey, MSBits); ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
-- 
2.43.0


From ec56859f796566a211263083c180b8c42eba2911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 2/8] fix: delete domains with the maximum number of labels

Delete and DeleteSubdomains of the domain trees track the root as well as a
node per label, so the arrays have to hold MaxLabels + 1 nodes. With a name
of 127 labels in the tree they panicked with index out of range.
---
 domaintree/domaintree.go                      | 8 ++++----
 uintX/domaintree16/domaintree.go              | 8 ++++----
 uintX/domaintree32/domaintree.go              | 8 ++++----
 uintX/domaintree64/domaintree.go              | 8 ++++----
 uintX/domaintree8/domaintree.go               | 8 ++++----
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 8 ++++----
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index 87fabef..df4a0c8 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -120,8 +120,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -148,8 +148,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 4306e21..dd2ced5 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 063fc45..cc5cab5 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 09c2574..12194bc 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 34719c3..6938b8b 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index fd04450..b23b2a5 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
-- 
2.43.0


From a491569e819b95637592b77e17f1fbf4cbb3e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 3/8] fix: let lookups in domain trees find the value of the
 root domain

Get started from no value at all, so a value stored for the root domain (the
empty name) was enumerated and could be deleted but never found, neither for
the root domain itself nor for the domains it encloses.
---
 domaintree/domaintree.go                      | 4 ++--
 uintX/domaintree16/domaintree.go              | 4 ++--
 uintX/domaintree32/domaintree.go              | 4 ++--
 uintX/domaintree64/domaintree.go              | 4 ++--
 uintX/domaintree8/domaintree.go               | 4 ++--
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index df4a0c8..b99c337 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -93,8 +93,8 @@ func (n *Node) Get(d domain.Name) (interface{}, bool) {
 		return nil, false
 	}
 
-	var value interface{}
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		item, ok := n.branches.RawGet(label)
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index dd2ced5..00d5447 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -91,8 +91,8 @@ func (n *Node) Get(d domain.Name) (uint16, bool) {
 		return 0, false
 	}
 
-	var value uint16
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index cc5cab5..c540335 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -91,8 +91,8 @@ func (n *Node) Get(d domain.Name) (uint32, bool) {
 		return 0, false
 	}
 
-	var value uint32
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 12194bc..9d2efd2 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -91,8 +91,8 @@ func (n *Node) Get(d domain.Name) (uint64, bool) {
 		return 0, false
 	}
 
-	var value uint64
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 6938b8b..0dd2dc4 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -91,8 +91,8 @@ func (n *Node) Get(d domain.Name) (uint8, bool) {
 		return 0, false
 	}
 
-	var value uint8
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index b23b2a5..f9a647a 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -91,8 +91,8 @@ func (n *Node) Get(d domain.Name) (uint{{.bits}}, bool) {
 		return 0, false
 	}
 
-	var value uint{{.bits}}
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
-- 
2.43.0


From 696100800d4b944b498a80c11e72e128c53e6360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 4/8] fix: allow in-place insertion into domain trees built by
 copy-on-write

InplaceInsert panicked with a nil pointer dereference as soon as it met a
node which Insert or Delete had created without branches.
---
 domaintree/domaintree.go                      | 10 +++++-----
 uintX/domaintree16/domaintree.go              | 10 +++++-----
 uintX/domaintree32/domaintree.go              | 10 +++++-----
 uintX/domaintree64/domaintree.go              | 10 +++++-----
 uintX/domaintree8/domaintree.go               | 10 +++++-----
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 10 +++++-----
 6 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index b99c337..9cb61fe 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -54,16 +54,16 @@ func (n *Node) Insert(d domain.Name, v interface{}) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v interface{}) {
-	if n.branches == nil {
-		n.branches = dltree.NewTree()
-	}
-
 	d.GetLabels(func(label string) error {
 		item, ok := n.branches.RawGet(label)
 		if ok {
 			n = item.(*Node)
 		} else {
-			next := &Node{branches: dltree.NewTree()}
+			if n.branches == nil {
+				n.branches = dltree.NewTree()
+			}
+
+			next := new(Node)
 			n.branches.RawInplaceInsert(label, next)
 			n = next
 		}
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 00d5447..676baee 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -52,16 +52,16 @@ func (n *Node) Insert(d domain.Name, v uint16) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint16) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
 		} else {
-			next := &Node{branches: newLabelTree()}
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
+			next := new(Node)
 			n.branches.rawInplaceInsert(label, next)
 			n = next
 		}
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index c540335..8426046 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -52,16 +52,16 @@ func (n *Node) Insert(d domain.Name, v uint32) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint32) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
 		} else {
-			next := &Node{branches: newLabelTree()}
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
+			next := new(Node)
 			n.branches.rawInplaceInsert(label, next)
 			n = next
 		}
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 9d2efd2..12d1cf7 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -52,16 +52,16 @@ func (n *Node) Insert(d domain.Name, v uint64) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint64) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
 		} else {
-			next := &Node{branches: newLabelTree()}
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
+			next := new(Node)
 			n.branches.rawInplaceInsert(label, next)
 			n = next
 		}
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 0dd2dc4..891b2a2 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -52,16 +52,16 @@ func (n *Node) Insert(d domain.Name, v uint8) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint8) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
 		} else {
-			next := &Node{branches: newLabelTree()}
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
+			next := new(Node)
 			n.branches.rawInplaceInsert(label, next)
 			n = next
 		}
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index f9a647a..5de9b01 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -52,16 +52,16 @@ func (n *Node) Insert(d domain.Name, v uint{{.bits}}) *Node {
 
 // InplaceInsert puts or replaces value using given domain as a key. The method inserts data directly to current tree so make sure you have exclusive access to it.
 func (n *Node) InplaceInsert(d domain.Name, v uint{{.bits}}) {
-	if n.branches == nil {
-		n.branches = newLabelTree()
-	}
-
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
 		if ok {
 			n = next
 		} else {
-			next := &Node{branches: newLabelTree()}
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
+			next := new(Node)
 			n.branches.rawInplaceInsert(label, next)
 			n = next
 		}
-- 
2.43.0


From 1730167c25827205d3e1b56a776b9c6e76fb4375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:14 +0000
Subject: [PATCH 5/8] fix: fail when an instance file cannot be closed

---
 etc/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/etc/file.go b/etc/file.go
index 6e63fb8..76097d0 100644
--- a/etc/file.go
+++ b/etc/file.go
@@ -22,9 +22,12 @@ func executeFile(out, in string, data interface{}) {
 	if err != nil {
 		log.Fatal(err)
 	}
-	defer f.Close()
 
 	if err := t.Execute(f, data); err != nil {
 		log.Fatal(err)
 	}
+
+	if err := f.Close(); err != nil {
+		log.Fatal(err)
+	}
 }
-- 
2.43.0


From fc5e8bf86248e7e5b9d5ca6c6ba5c5b43169355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:54 +0000
Subject: [PATCH 6/8] fix: do not panic on text of more uppercase letters than
 a label can hold

MakeHumanReadableLabel cuts what does not fit into its buffer, except for
uppercase letters: 253 of them made it index out of range, in case of
dltree enumeration on a goroutine of its own, which ends the process.
---
 domain/label.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/label.go b/domain/label.go
index ef43c7d..441ef59 100644
--- a/domain/label.go
+++ b/domain/label.go
@@ -59,6 +59,10 @@ func MakeHumanReadableLabel(s string) string {
 
 			j += 4
 		} else if c >= 'A' && c <= 'Z' {
+			if j >= len(label) {
+				return string(label[:j])
+			}
+
 			label[j] = c | 0x20
 			j++
 		} else {
-- 
2.43.0


From 1e72e5782d61cc39205903547ef7dc11b41c3d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:53 +0000
Subject: [PATCH 7/8] fix: let UpdateDescendants take a nil tree or network as
 empty

Every other method of Tree which does not have to add an entry to its
receiver treats a nil tree as an empty one and a nil network as none;
UpdateDescendants dereferenced both.
---
 iptree/iptree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iptree/iptree.go b/iptree/iptree.go
index 2912ee2..79e5b05 100644
--- a/iptree/iptree.go
+++ b/iptree/iptree.go
@@ -117,6 +117,10 @@ func updateNode64(MSIP net.IP, n *numtree.Node64, callback UpdateDescendantsCall
 
 // UpdateDescendants accepts a target network (node) and a callback, and updates all the descendants of the target node if the callback returns true as its second return value
 func (t *Tree) UpdateDescendants(n *net.IPNet, callback UpdateDescendantsCallback) {
+	if t == nil || n == nil {
+		return
+	}
+
 	if key, bits := iPv4NetToUint32(n); bits >= 0 {
 		target := t.root32.FindNode(key, bits)
 		if target == nil {
-- 
2.43.0


From 33efb89112ce819dbf6628d9b3e6a65ee1d8e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:30 +0000
Subject: [PATCH 8/8] fix: Children of an empty number tree returns no nodes
 instead of a panic

---
 numtree/node32.go | 4 ++++
 numtree/node64.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/numtree/node32.go b/numtree/node32.go
index cc1c2c1..8d313c1 100644
--- a/numtree/node32.go
+++ b/numtree/node32.go
@@ -127,6 +127,10 @@ func (n *Node32) Match(key uint32, bits int) (interface{}, bool) {
 }
 
 func (n *Node32) Children() (*Node32, *Node32) {
+	if n == nil {
+		return nil, nil
+	}
+
 	return n.chld[0], n.chld[1]
 }
 
diff --git a/numtree/node64.go b/numtree/node64.go
index 304f5d6..fb18cdb 100644
--- a/numtree/node64.go
+++ b/numtree/node64.go
@@ -66,6 +66,10 @@ func (n *Node64) Dot() string {
 }
 
 func (n *Node64) Children() (*Node64, *Node64) {
+	if n == nil {
+		return nil, nil
+	}
+
 	return n.chld[0], n.chld[1]
 }
 
-- 
2.43.0

