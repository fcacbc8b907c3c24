From bb1898805d37b6087aa12c417698e75d217de43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 01/22] fix: OPdiff returned its right operand when the left
 one is False

0 and not x is False; apply returned x as soon as it met the constant False
on the left and a node that is not constant on the right.
---
 operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index e4ccd8b..3c7cd77 100644
--- a/operations.go
+++ b/operations.go
@@ -236,7 +236,7 @@ func (b *BDD) apply(left int, right int) int {
 			return 0
 		}
 		if left == 0 {
-			return right
+			return 0
 		}
 	case OPless:
 		if (left == right) || (left == 1) {
-- 
2.43.0


From 40e825e598d9fd575f1d4b74345b58b17be641d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 02/22] fix: Exist failed when the set of variables is empty

Makeset([]int{}) is True, for which quantset2cache sets an error; the test for
constant sets came after it.
---
 operations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 3c7cd77..315c4a9 100644
--- a/operations.go
+++ b/operations.go
@@ -398,12 +398,12 @@ func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(varset) != nil {
 		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
 	}
-	if err := b.quantset2cache(*varset); err != nil {
-		return nil
-	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
 	}
+	if err := b.quantset2cache(*varset); err != nil {
+		return nil
+	}
 
 	b.quantcache.id = cacheidEXIST
 	b.applycache.op = int(OPor)
-- 
2.43.0


From d5ca8487f4dae16c495a49f65af0bdd636e4e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 03/22] fix: Allsat lost the errors returned by its callback

The error was dropped on the way up, which also resumed the enumeration with
the other branches.
---
 operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index 315c4a9..89a6dd9 100644
--- a/operations.go
+++ b/operations.go
@@ -723,7 +723,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(low, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -733,7 +733,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(high, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From 9c799826874b3f1a2462e67c79205a7760f0c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 04/22] fix: option Maxnodesize was ignored

New did not copy it to the node table, so that the limit was always zero.
---
 buddy.go | 1 +
 hudd.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/buddy.go b/buddy.go
index 3f6e8c3..19e1bde 100644
--- a/buddy.go
+++ b/buddy.go
@@ -95,6 +95,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
 	impl.maxnodeincrease = config.maxnodeincrease
+	impl.maxnodesize = config.maxnodesize
 	nodesize := primeGte(config.nodesize)
 	impl.nodes = make([]buddynode, nodesize)
 	for k := range impl.nodes {
diff --git a/hudd.go b/hudd.go
index bd817d1..337d9d9 100644
--- a/hudd.go
+++ b/hudd.go
@@ -95,6 +95,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
 	impl.maxnodeincrease = config.maxnodeincrease
+	impl.maxnodesize = config.maxnodesize
 	// initializing the list of nodes
 	nodesize := config.nodesize
 	impl.nodes = make([]huddnode, nodesize)
-- 
2.43.0


From de0b9e2b2708be7dc4fd6e898e73edbdb2534d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 05/22] fix: Ithvar and NIthvar truncated large indices

An index of the form k + 2^32 was accepted, then panicked when indexing the
table of variables.
---
 bdd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdd.go b/bdd.go
index 002580d..4b24291 100644
--- a/bdd.go
+++ b/bdd.go
@@ -263,7 +263,7 @@ func (b *BDD) checkptr(n Node) error {
 // expression xi), otherwise we set the error status in the BDD and returns the
 // nil node. The requested variable must be in the range [0..Varnum).
 func (b *BDD) Ithvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to ithvar", i)
 	}
 	// we do not need to reference count variables
@@ -274,7 +274,7 @@ func (b *BDD) Ithvar(i int) Node {
 // success (the expression !xi), otherwise the nil node. See *ithvar* for
 // further info.
 func (b *BDD) NIthvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to nithvar", i)
 	}
 	// we do not need to reference count variables
-- 
2.43.0


From e8f25e3b2bae086d5b31c0ddba9021e2c54b4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 06/22] fix: nodes with many references could be reclaimed
 while in use

References made when the counter is at its maximal value are not counted. The
counter must therefore stay at that value, but the finalizers of the previous
references were still decreasing it.
---
 buddy.go | 5 ++++-
 hudd.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/buddy.go b/buddy.go
index 19e1bde..81f6814 100644
--- a/buddy.go
+++ b/buddy.go
@@ -127,7 +127,10 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// a counter that reached its maximal value does not change anymore
+		if impl.nodes[*n].refcou < _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	for k := 0; k < config.varnum; k++ {
 		v0, _ := impl.makenode(int32(k), 0, 1, nil)
diff --git a/hudd.go b/hudd.go
index 337d9d9..3b1e3c4 100644
--- a/hudd.go
+++ b/hudd.go
@@ -151,7 +151,10 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// a counter that reached its maximal value does not change anymore
+		if impl.nodes[*n].refcou < _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	b.tables = impl
 	b.cacheinit(config)
-- 
2.43.0


From e512ed0d94122931d631e13f49e9bc0214094e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 07/22] fix: Allnodes called its callback while nodes are
 marked

With roots, the nodes not yet visited kept their mark during the calls to f.
Other operations could not be used in f (with buddy, the mark is part of the
level of a node), the marks stayed forever if f panics, and a second traversal
started in f removed the marks of the first one.
---
 bkernel.go |  9 ---------
 buddy.go   | 21 +++++++++------------
 hkernel.go |  9 ---------
 hudd.go    | 32 ++++++++++----------------------
 4 files changed, 19 insertions(+), 52 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 9983ede..9b489c8 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -256,12 +256,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/buddy.go b/buddy.go
index 81f6814..bc82e58 100644
--- a/buddy.go
+++ b/buddy.go
@@ -171,24 +171,21 @@ func (b *tables) high(n int) int {
 }
 
 func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node) error {
+	// Function f may use the BDD, and even trigger a garbage collection. Hence
+	// we collect the nodes and remove all the marks before calling it.
 	for _, v := range n {
 		b.markrec(*v)
 	}
-	// if err := f(0, int(b.nodes[0].level), 0, 0); err != nil {
-	// 	b.unmarkall()
-	// 	return err
-	// }
-	// if err := f(1, int(b.nodes[1].level), 1, 1); err != nil {
-	// 	b.unmarkall()
-	// 	return err
-	// }
+	ids := []int{}
 	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			ids = append(ids, k)
+		}
+	}
+	for _, k := range ids {
+		if err := f(k, int(b.level(k)), b.low(k), b.high(k)); err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/hkernel.go b/hkernel.go
index 554c344..b74424a 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -207,12 +207,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/hudd.go b/hudd.go
index 3b1e3c4..937a966 100644
--- a/hudd.go
+++ b/hudd.go
@@ -245,33 +245,21 @@ func (b *tables) high(n int) int {
 }
 
 func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node) error {
+	// Function f may use the BDD, and even trigger a garbage collection. Hence
+	// we collect the nodes and remove all the marks before calling it.
 	for _, v := range n {
 		b.markrec(*v)
 	}
-	// if err := f(0, int(b.nodes[0].level), 0, 0); err != nil {
-	// 	b.unmarkall()
-	// 	return err
-	// }
-	// if err := f(1, int(b.nodes[1].level), 1, 1); err != nil {
-	// 	b.unmarkall()
-	// 	return err
-	// }
-	b.RLock()
-	count := len(b.nodes)
-	b.RUnlock()
-
-	for k := 0; k < count; k++ {
-		b.RLock()
-		if k >= len(b.nodes) {
-			break
-		}
-		b.RUnlock()
+	ids := []int{}
+	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			ids = append(ids, k)
+		}
+	}
+	for _, k := range ids {
+		if err := f(k, int(b.level(k)), b.low(k), b.high(k)); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From fc28a33c9b61f8d7c36cf508e2ed08d56c1635af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 08/22] fix: data races between finalizers and the operations
 of a BDD

Finalizers run in a goroutine of their own, and decrease reference counters
that Retnode, the garbage collection, the resizing of the table, and also (with
the default implementation) the marks, update without synchronization. A lost
update can free a node that is still used, or keep forever a node that is not.
Finalizers and the functions above now exclude each other. The buddy
implementation had no lock at all; its traversal of the active nodes now also
works when its callback makes the table grow.
---
 bkernel.go |  8 ++++++++
 buddy.go   | 13 ++++++++++---
 hkernel.go |  8 ++++++++
 hudd.go    | 11 +++++------
 4 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 9b489c8..f3c2df1 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -29,6 +29,8 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -134,6 +136,8 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 	tmp := b.nodes
 	b.nodes = make([]buddynode, nodesize)
 	copy(b.nodes, tmp)
@@ -192,6 +196,10 @@ func (b *tables) gbc(refstack []int) {
 	//
 	// runtime.GC()
 
+	// finalizers must not change the reference counters during the collection
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
 	// we append the current stats to the GC history
 	if _DEBUG {
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
diff --git a/buddy.go b/buddy.go
index bc82e58..1b83703 100644
--- a/buddy.go
+++ b/buddy.go
@@ -9,6 +9,7 @@ package rudd
 import (
 	"fmt"
 	"log"
+	"sync"
 	"sync/atomic"
 	"unsafe"
 )
@@ -17,6 +18,7 @@ import (
 // Diagrams based on the data structures and algorithms found in the BuDDy
 // library.
 type tables struct {
+	mutex         sync.Mutex  // Protects the reference counters, that are also updated by finalizers
 	nodes         []buddynode // List of all the BDD nodes. Constants are always kept at index 0 and 1
 	freenum       int         // Number of free nodes
 	freepos       int         // First free node
@@ -121,6 +123,8 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl.freenum = nodesize - 2
 	impl.gcstat.history = []gcpoint{}
 	impl.nodefinalizer = func(n *int) {
+		impl.mutex.Lock()
+		defer impl.mutex.Unlock()
 		if _DEBUG {
 			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
 			if _LOGLEVEL > 2 {
@@ -198,9 +202,10 @@ func (b *tables) allnodes(f func(id, level, low, high int) error) error {
 	// if err := f(1, int(b.nodes[1].level), 1, 1); err != nil {
 	// 	return err
 	// }
-	for k, v := range b.nodes {
-		if v.low != -1 {
-			if err := f(k, int(v.level), v.low, v.high); err != nil {
+	count := len(b.nodes)
+	for k := 0; k < count; k++ {
+		if b.nodes[k].low != -1 {
+			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
 				return err
 			}
 		}
@@ -210,6 +215,8 @@ func (b *tables) allnodes(f func(id, level, low, high int) error) error {
 
 // Stats returns information about the BDD
 func (b *tables) stats() string {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
 	res := "Impl.:      BuDDy\n"
 	res += fmt.Sprintf("Allocated:  %d  (%s)\n", len(b.nodes), humanSize(len(b.nodes), unsafe.Sizeof(buddynode{})))
 	res += fmt.Sprintf("Produced:   %d\n", b.produced)
diff --git a/hkernel.go b/hkernel.go
index b74424a..33ff6c3 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -29,6 +29,8 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	b.Lock()
+	defer b.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -93,6 +95,10 @@ func (b *tables) gbc(refstack []int) {
 
 	// runtime.GC()
 
+	// finalizers must not change the reference counters during the collection
+	b.Lock()
+	defer b.Unlock()
+
 	// we append the current stats to the GC history
 	if _DEBUG {
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
@@ -176,6 +182,8 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	b.Lock()
+	defer b.Unlock()
 	tmp := b.nodes
 	b.nodes = make([]huddnode, nodesize)
 	copy(b.nodes, tmp)
diff --git a/hudd.go b/hudd.go
index 937a966..f61f8d9 100644
--- a/hudd.go
+++ b/hudd.go
@@ -43,21 +43,18 @@ type huddnode struct {
 	refcou int32 // Count the number of external references
 }
 
+// Marks are stored with the reference counters, which finalizers update. The
+// next functions must be called with the lock held.
+
 func (b *tables) ismarked(n int) bool {
-	b.RLock()
-	defer b.RUnlock()
 	return (b.nodes[n].refcou & 0x200000) != 0
 }
 
 func (b *tables) marknode(n int) {
-	b.RLock()
-	defer b.RUnlock()
 	b.nodes[n].refcou |= 0x200000
 }
 
 func (b *tables) unmarknode(n int) {
-	b.RLock()
-	defer b.RUnlock()
 	b.nodes[n].refcou &= 0x1FFFFF
 }
 
@@ -247,6 +244,7 @@ func (b *tables) high(n int) int {
 func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node) error {
 	// Function f may use the BDD, and even trigger a garbage collection. Hence
 	// we collect the nodes and remove all the marks before calling it.
+	b.Lock()
 	for _, v := range n {
 		b.markrec(*v)
 	}
@@ -257,6 +255,7 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 			ids = append(ids, k)
 		}
 	}
+	b.Unlock()
 	for _, k := range ids {
 		if err := f(k, int(b.level(k)), b.low(k), b.high(k)); err != nil {
 			return err
-- 
2.43.0


From d09074c312d872bf8f69e001c6098a2d2500ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 09/22] fix: Allsat and Allnodes could follow nodes reclaimed
 during a callback

The garbage collector of the runtime can find that the roots are unreachable
as soon as their ids are read, so that operations used in the callback could
reclaim and reuse the nodes that remain to be visited.
---
 operations.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 89a6dd9..adf2449 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"runtime"
 )
 
 // Scanset returns the set of variables (levels) found when following the high
@@ -705,8 +706,10 @@ func (b *BDD) Allsat(f func([]int) error, n Node) error {
 		prof[k] = -1
 	}
 	// the function does not create new nodes, so we do not need to take care of
-	// possible resizing
-	return b.allsat(*n, prof, f)
+	// possible resizing, but the callback may, and n must not be reclaimed then
+	err := b.allsat(*n, prof, f)
+	runtime.KeepAlive(n)
+	return err
 }
 
 func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
@@ -759,5 +762,8 @@ func (b *BDD) Allnodes(f func(id, level, low, high int) error, n ...Node) error
 		// we call f over all active nodes
 		return b.allnodes(f)
 	}
-	return b.allnodesfrom(f, n)
+	// but the callback may, and the roots must not be reclaimed then
+	err := b.allnodesfrom(f, n)
+	runtime.KeepAlive(n)
+	return err
 }
-- 
2.43.0


From 791a3704b423c0017cb1c524b06392ec3bbf53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 10/22] fix: operations did not handle the lack of free nodes

When makenode cannot find a place for a new node:
- Makenode did not set the error flag, and kept the caches although a garbage
  collection occurred, so that they could return nodes that were reclaimed;
- operations used the result, -1, as if it was a node. They panicked, built
  nodes with a branch to -1, or returned a wrong result, after visiting all the
  paths of their operands since a failed result is never in the cache;
- Retnode(-1) panicked with build tag debug.
Moreover, a table that cannot grow was an error even with free nodes left.
---
 bdd.go        | 14 +++++++--
 bkernel.go    | 17 +++++++----
 hkernel.go    | 15 ++++++----
 operations.go | 78 +++++++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 111 insertions(+), 13 deletions(-)

diff --git a/bdd.go b/bdd.go
index 4b24291..050d0ff 100644
--- a/bdd.go
+++ b/bdd.go
@@ -165,8 +165,14 @@ func (b *BDD) Varnum() int {
 // Makenode is a kernel function of the BDD package. Use it at your own risk.
 // Makenode returns a node corresponding to the tuple (level, low, high) if it
 // exist or creates a new one in the BDD. You can create a node from the value
-// returned by Makenode using function Retnode.
+// returned by Makenode using function Retnode. We return -1 and set the error
+// flag in the BDD if there is no space left for a new node. The result is also
+// -1 if low or high is negative, which is the case when they are the result of a
+// call to Makenode that failed.
 func (b *BDD) Makenode(level int32, low, high int) int {
+	if low < 0 || high < 0 {
+		return -1
+	}
 	res, err := b.tables.makenode(level, low, high, b.refstack)
 	if err == nil {
 		return res
@@ -183,7 +189,11 @@ func (b *BDD) Makenode(level int32, low, high int) int {
 		b.cacheresize(b.size())
 		return res
 	}
-	return res
+	// There is no space left but the garbage collection took place, so we also
+	// need to invalidate the caches.
+	b.cachereset()
+	b.seterror("cannot build a new node; %s", err)
+	return -1
 }
 
 // caches is a collection of caches used for operations
diff --git a/bkernel.go b/bkernel.go
index f3c2df1..e6087ef 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -14,8 +14,12 @@ import (
 )
 
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
-// Retnode returns a valid node from the value returned by a call to Makenode.
+// Retnode returns a valid node from the value returned by a call to Makenode. The
+// result is nil if the call failed, meaning if n is -1.
 func (b *tables) Retnode(n int) Node {
+	if n == -1 {
+		return nil
+	}
 	if n < 0 || n > len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
@@ -80,13 +84,14 @@ func (b *tables) makenode(level int32, low, high int, refstack []int) (int, erro
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			// It is not a problem if the table cannot grow as long as there
+			// is some space left.
+			if b.noderesize() == errResize {
+				err = errResize
+				hash = b.nodehash(level, low, high)
 			}
-			hash = b.nodehash(level, low, high)
 		}
-		// Panic if we still have no free positions after all this
+		// Error if we still have no free positions after all this
 		if b.freepos == 0 {
 			// b.seterror("Unable to resize BDD")
 			return -1, errMemory
diff --git a/hkernel.go b/hkernel.go
index 33ff6c3..5480b5f 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -14,8 +14,12 @@ import (
 )
 
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
-// Retnode returns a valid node from the value returned by a call to Makenode.
+// Retnode returns a valid node from the value returned by a call to Makenode. The
+// result is nil if the call failed, meaning if n is -1.
 func (b *tables) Retnode(n int) Node {
+	if n == -1 {
+		return nil
+	}
 	if n < 0 || n > len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
@@ -72,12 +76,13 @@ func (b *tables) makenode(level int32, low int, high int, refstack []int) (int,
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			// It is not a problem if the table cannot grow as long as there
+			// is some space left.
+			if b.noderesize() == errResize {
+				err = errResize
 			}
 		}
-		// Panic if we still have no free positions after all this
+		// Error if we still have no free positions after all this
 		if b.freepos == 0 {
 			// b.seterror("Unable to resize BDD")
 			return -1, errMemory
diff --git a/operations.go b/operations.go
index adf2449..20f226c 100644
--- a/operations.go
+++ b/operations.go
@@ -123,7 +123,13 @@ func (b *BDD) not(n int) int {
 		return res
 	}
 	low := b.Pushref(b.not(b.low(n)))
+	if low < 0 {
+		return -1
+	}
 	high := b.Pushref(b.not(b.high(n)))
+	if high < 0 {
+		return -1
+	}
 	res := b.Makenode(b.level(n), low, high)
 	b.Popref(2)
 	return b.setnot(n, res)
@@ -285,16 +291,34 @@ func (b *BDD) apply(left int, right int) int {
 	var res int
 	if leftlvl == rightlvl {
 		low := b.Pushref(b.apply(b.low(left), b.low(right)))
+		if low < 0 {
+			return -1
+		}
 		high := b.Pushref(b.apply(b.high(left), b.high(right)))
+		if high < 0 {
+			return -1
+		}
 		res = b.Makenode(leftlvl, low, high)
 	} else {
 		if leftlvl < rightlvl {
 			low := b.Pushref(b.apply(b.low(left), right))
+			if low < 0 {
+				return -1
+			}
 			high := b.Pushref(b.apply(b.high(left), right))
+			if high < 0 {
+				return -1
+			}
 			res = b.Makenode(leftlvl, low, high)
 		} else {
 			low := b.Pushref(b.apply(left, b.low(right)))
+			if low < 0 {
+				return -1
+			}
 			high := b.Pushref(b.apply(left, b.high(right)))
+			if high < 0 {
+				return -1
+			}
 			res = b.Makenode(rightlvl, low, high)
 		}
 	}
@@ -383,7 +407,13 @@ func (b *BDD) ite(f, g, h int) int {
 	q := b.level(g)
 	r := b.level(h)
 	low := b.Pushref(b.ite(b.iteLow(p, q, r, f), b.iteLow(q, p, r, g), b.iteLow(r, p, q, h)))
+	if low < 0 {
+		return -1
+	}
 	high := b.Pushref(b.ite(b.iteHigh(p, q, r, f), b.iteHigh(q, p, r, g), b.iteHigh(r, p, q, h)))
+	if high < 0 {
+		return -1
+	}
 	res := b.Makenode(min3(p, q, r), low, high)
 	b.Popref(2)
 	return b.setite(f, g, h, res)
@@ -425,7 +455,13 @@ func (b *BDD) quant(n, varset int) int {
 		return res
 	}
 	low := b.Pushref(b.quant(b.low(n), varset))
+	if low < 0 {
+		return -1
+	}
 	high := b.Pushref(b.quant(b.high(n), varset))
+	if high < 0 {
+		return -1
+	}
 	var res int
 	if b.quantset[b.level(n)] == b.quantsetID {
 		res = b.apply(low, high)
@@ -560,7 +596,13 @@ func (b *BDD) appquant(left, right, varset int) int {
 	var res int
 	if leftlvl == rightlvl {
 		low := b.Pushref(b.appquant(b.low(left), b.low(right), varset))
+		if low < 0 {
+			return -1
+		}
 		high := b.Pushref(b.appquant(b.high(left), b.high(right), varset))
+		if high < 0 {
+			return -1
+		}
 		if b.quantset[leftlvl] == b.quantsetID {
 			res = b.apply(low, high)
 		} else {
@@ -569,7 +611,13 @@ func (b *BDD) appquant(left, right, varset int) int {
 	} else {
 		if leftlvl < rightlvl {
 			low := b.Pushref(b.appquant(b.low(left), right, varset))
+			if low < 0 {
+				return -1
+			}
 			high := b.Pushref(b.appquant(b.high(left), right, varset))
+			if high < 0 {
+				return -1
+			}
 			if b.quantset[leftlvl] == b.quantsetID {
 				res = b.apply(low, high)
 			} else {
@@ -577,7 +625,13 @@ func (b *BDD) appquant(left, right, varset int) int {
 			}
 		} else {
 			low := b.Pushref(b.appquant(left, b.low(right), varset))
+			if low < 0 {
+				return -1
+			}
 			high := b.Pushref(b.appquant(left, b.high(right), varset))
+			if high < 0 {
+				return -1
+			}
 			if b.quantset[rightlvl] == b.quantsetID {
 				res = b.apply(low, high)
 			} else {
@@ -612,7 +666,13 @@ func (b *BDD) replace(n int, r Replacer) int {
 		return res
 	}
 	low := b.Pushref(b.replace(b.low(n), r))
+	if low < 0 {
+		return -1
+	}
 	high := b.Pushref(b.replace(b.high(n), r))
+	if high < 0 {
+		return -1
+	}
 	res := b.correctify(image, low, high)
 	b.Popref(2)
 	return b.setreplace(n, res)
@@ -631,7 +691,13 @@ func (b *BDD) correctify(level int32, low, high int) int {
 
 	if b.level(low) == b.level(high) {
 		left := b.Pushref(b.correctify(level, b.low(low), b.low(high)))
+		if left < 0 {
+			return -1
+		}
 		right := b.Pushref(b.correctify(level, b.high(low), b.high(high)))
+		if right < 0 {
+			return -1
+		}
 		res := b.Makenode(b.level(low), left, right)
 		b.Popref(2)
 		return res
@@ -639,14 +705,26 @@ func (b *BDD) correctify(level int32, low, high int) int {
 
 	if b.level(low) < b.level(high) {
 		left := b.Pushref(b.correctify(level, b.low(low), high))
+		if left < 0 {
+			return -1
+		}
 		right := b.Pushref(b.correctify(level, b.high(low), high))
+		if right < 0 {
+			return -1
+		}
 		res := b.Makenode(b.level(low), left, right)
 		b.Popref(2)
 		return res
 	}
 
 	left := b.Pushref(b.correctify(level, low, b.low(high)))
+	if left < 0 {
+		return -1
+	}
 	right := b.Pushref(b.correctify(level, low, b.high(high)))
+	if right < 0 {
+		return -1
+	}
 	res := b.Makenode(b.level(high), left, right)
 	b.Popref(2)
 	return res
-- 
2.43.0


From b06ee7e3ba0a9fcb159d85c4bc6f6d4b71805681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 11/22] fix: the table of the buddy implementation could fail
 to grow

Rounding the new size down to a prime number can give the current size, for
instance with a small value of Maxnodeincrease.
---
 bkernel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bkernel.go b/bkernel.go
index e6087ef..999d0bb 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -135,7 +135,10 @@ func (b *tables) noderesize() error {
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
 		nodesize = b.maxnodesize
 	}
-	nodesize = primeLte(nodesize)
+	// we prefer a prime number, but there may be none above the current size
+	if prime := primeLte(nodesize); prime > oldsize {
+		nodesize = prime
+	}
 	if nodesize <= oldsize {
 		// b.seterror("Unable to grow size of BDD (%d nodes)", nodesize)
 		return errMemory
-- 
2.43.0


From 673885d945463d2c9f23b00abe0223914862b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 12/22] fix: Retnode panicked on an index equal to the size of
 the table

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 999d0bb..79246f5 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -20,7 +20,7 @@ func (b *tables) Retnode(n int) Node {
 	if n == -1 {
 		return nil
 	}
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
diff --git a/hkernel.go b/hkernel.go
index 5480b5f..be8700f 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -20,7 +20,7 @@ func (b *tables) Retnode(n int) Node {
 	if n == -1 {
 		return nil
 	}
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
 		}
-- 
2.43.0


From 49852221a86aba7489f6d7e7816fa1e70491697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 13/22] fix: operations panicked when an operand is nil

Operations return nil when there is an error, and report an error when they are
given nil, but they used its value in the message.
---
 bdd.go        | 15 ++++++++++++---
 operations.go | 28 ++++++++++++++--------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/bdd.go b/bdd.go
index 050d0ff..bab6e15 100644
--- a/bdd.go
+++ b/bdd.go
@@ -269,6 +269,15 @@ func (b *BDD) checkptr(n Node) error {
 	return nil
 }
 
+// nodeid returns the value of a Node, or -1 if it is nil. It is used to report
+// errors.
+func nodeid(n Node) int {
+	if n == nil {
+		return -1
+	}
+	return *n
+}
+
 // Ithvar returns a BDD representing the i'th variable on success (the
 // expression xi), otherwise we set the error status in the BDD and returns the
 // nil node. The requested variable must be in the range [0..Varnum).
@@ -295,7 +304,7 @@ func (b *BDD) NIthvar(i int) Node {
 // the BDD to its error state and return -1 if we try to access a constant node.
 func (b *BDD) Label(n Node) int {
 	if b.checkptr(n) != nil {
-		b.seterror("Illegal access to node %d in call to Label", n)
+		b.seterror("Illegal access to node %d in call to Label", nodeid(n))
 		return -1
 	}
 	if *n < 2 {
@@ -309,7 +318,7 @@ func (b *BDD) Label(n Node) int {
 // error flag in the BDD if there is an error.
 func (b *BDD) Low(n Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Illegal access to node %d in call to Low", n)
+		return b.seterror("Illegal access to node %d in call to Low", nodeid(n))
 	}
 	return b.Retnode(b.low(*n))
 }
@@ -318,7 +327,7 @@ func (b *BDD) Low(n Node) Node {
 // error flag in the BDD if there is an error.
 func (b *BDD) High(n Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Illegal access to node %d in call to High", n)
+		return b.seterror("Illegal access to node %d in call to High", nodeid(n))
 	}
 	return b.Retnode(b.high(*n))
 }
diff --git a/operations.go b/operations.go
index 20f226c..b73a886 100644
--- a/operations.go
+++ b/operations.go
@@ -102,7 +102,7 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 // the zero-terminal with references to the one-terminal and vice versa.
 func (b *BDD) Not(n Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong operand in call to Not (%d)", *n)
+		return b.seterror("Wrong operand in call to Not (%d)", nodeid(n))
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -152,10 +152,10 @@ func (b *BDD) not(n int) int {
 //    OPinvimp      reverse implication      [1,0,1,1]
 func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 	if b.checkptr(n1) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: %d, n2: ...)", op, *n1)
+		return b.seterror("Wrong operand in call to Apply %s(n1: %d, n2: ...)", op, nodeid(n1))
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: ..., n2: %d)", op, *n2)
+		return b.seterror("Wrong operand in call to Apply %s(n1: ..., n2: %d)", op, nodeid(n2))
 	}
 	b.applycache.op = int(op)
 	b.Initref()
@@ -330,13 +330,13 @@ func (b *BDD) apply(left int, right int) int {
 // & g) | (!f & h)] more efficiently than doing the three operations separately.
 func (b *BDD) Ite(f, g, h Node) Node {
 	if b.checkptr(f) != nil {
-		return b.seterror("Wrong operand in call to Ite (f: %d)", *f)
+		return b.seterror("Wrong operand in call to Ite (f: %d)", nodeid(f))
 	}
 	if b.checkptr(g) != nil {
-		return b.seterror("Wrong operand in call to Ite (g: %d)", *g)
+		return b.seterror("Wrong operand in call to Ite (g: %d)", nodeid(g))
 	}
 	if b.checkptr(h) != nil {
-		return b.seterror("Wrong operand in call to Ite (h: %d)", *h)
+		return b.seterror("Wrong operand in call to Ite (h: %d)", nodeid(h))
 	}
 	b.Initref()
 	b.Pushref(*f)
@@ -424,10 +424,10 @@ func (b *BDD) ite(f, g, h int) int {
 // nil and set the error flag in b if there is an error.
 func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong node in call to Exist (n: %d)", *n)
+		return b.seterror("Wrong node in call to Exist (n: %d)", nodeid(n))
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
+		return b.seterror("Wrong varset in call to Exist (%d)", nodeid(varset))
 	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
@@ -485,16 +485,16 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 		return b.seterror("operator %s not supported in call to AppEx")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("wrong varset in call to AppEx (%d)", *varset)
+		return b.seterror("wrong varset in call to AppEx (%d)", nodeid(varset))
 	}
 	if *varset < 2 { // we have an empty set
 		return b.Apply(n1, n2, op)
 	}
 	if b.checkptr(n1) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(left: %d)", op, *n1)
+		return b.seterror("wrong operand in call to AppEx %s(left: %d)", op, nodeid(n1))
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(right: %d)", op, *n2)
+		return b.seterror("wrong operand in call to AppEx %s(right: %d)", op, nodeid(n2))
 	}
 	if err := b.quantset2cache(*varset); err != nil {
 		return nil
@@ -647,7 +647,7 @@ func (b *BDD) appquant(left, right, varset int) int {
 // variables with new ones. See type Replacer.
 func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("wrong operand in call to Replace (%d)", *n)
+		return b.seterror("wrong operand in call to Replace (%d)", nodeid(n))
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -737,7 +737,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 func (b *BDD) Satcount(n Node) *big.Int {
 	res := big.NewInt(0)
 	if b.checkptr(n) != nil {
-		b.seterror("Wrong operand in call to Satcount (%d)", *n)
+		b.seterror("Wrong operand in call to Satcount (%d)", nodeid(n))
 		return res
 	}
 	// We compute 2^level with a bit shift 1 << level
@@ -777,7 +777,7 @@ func (b *BDD) satcount(n int, satc map[int]*big.Int) *big.Int {
 // point.
 func (b *BDD) Allsat(f func([]int) error, n Node) error {
 	if b.checkptr(n) != nil {
-		return fmt.Errorf("wrong node in call to Allsat (%d)", *n)
+		return fmt.Errorf("wrong node in call to Allsat (%d)", nodeid(n))
 	}
 	prof := make([]int, b.varnum)
 	for k := range prof {
-- 
2.43.0


From 2825b3ba1d6e8de735ff2a454981057df505950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:22 +0000
Subject: [PATCH 14/22] fix: operators out of range

AppEx accepted negative operators, then panicked; its error message was missing
the operator. Operator.String panicked on values that are not operators.
---
 operations.go | 5 ++---
 operator.go   | 5 +++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index b73a886..3360b7d 100644
--- a/operations.go
+++ b/operations.go
@@ -480,9 +480,8 @@ func (b *BDD) quant(n, varset int) int {
 // than an apply operation followed by a quantification. Note that, when *op* is
 // a conjunction, this operation returns the relational product of two BDDs.
 func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
-	// FIXME: should check that op is a binary operation
-	if int(op) > 3 {
-		return b.seterror("operator %s not supported in call to AppEx")
+	if op < OPand || op > OPnand {
+		return b.seterror("operator %s not supported in call to AppEx", op)
 	}
 	if b.checkptr(varset) != nil {
 		return b.seterror("wrong varset in call to AppEx (%d)", nodeid(varset))
diff --git a/operator.go b/operator.go
index 55a5627..ed2dc4b 100644
--- a/operator.go
+++ b/operator.go
@@ -4,6 +4,8 @@
 
 package rudd
 
+import "fmt"
+
 // Operator describe the potential (binary) operations available on an Apply.
 // Only the first four operators (from OPand to OPnand) can be used in AppEx.
 type Operator int
@@ -39,6 +41,9 @@ var opnames = [12]string{
 }
 
 func (op Operator) String() string {
+	if op < 0 || op > opnot {
+		return fmt.Sprintf("Operator(%d)", int(op))
+	}
 	return opnames[op]
 }
 
-- 
2.43.0


From 66b8d7fbb5ccfe4847ee802a66f167ed26575e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 15/22] fix: NewReplacer did not check all its arguments

It panicked on indices out of range in oldvars, accepted negative indices in
newvars, and accepted duplicates in newvars. Replace panicked when given the
nil result of a call to NewReplacer that failed.
---
 operations.go |  3 +++
 replace.go    | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/operations.go b/operations.go
index 3360b7d..16c11e2 100644
--- a/operations.go
+++ b/operations.go
@@ -648,6 +648,9 @@ func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
 		return b.seterror("wrong operand in call to Replace (%d)", nodeid(n))
 	}
+	if r == nil {
+		return b.seterror("wrong replacer in call to Replace (nil value)")
+	}
 	b.Initref()
 	b.Pushref(*n)
 	b.replacecache.id = r.Id()
diff --git a/replace.go b/replace.go
index 6a33658..f047fc0 100644
--- a/replace.go
+++ b/replace.go
@@ -69,21 +69,26 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	_REPLACEID++
 	varnum := b.Varnum()
 	support := make([]bool, varnum)
+	target := make([]bool, varnum)
 	res.image = make([]int32, varnum)
 	for k := range res.image {
 		res.image[k] = int32(k)
 	}
 	for k, v := range oldvars {
+		if v < 0 || v >= varnum {
+			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
+		}
+		if newvars[k] < 0 || newvars[k] >= varnum {
+			return nil, fmt.Errorf("invalid variable in newvars (%d)", newvars[k])
+		}
 		if support[v] {
 			return nil, fmt.Errorf("duplicate variable (%d) in oldvars", v)
 		}
-		if v >= varnum {
-			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
-		}
-		if newvars[k] >= varnum {
-			return nil, fmt.Errorf("invalid variable in newvars (%d)", v)
+		if target[newvars[k]] {
+			return nil, fmt.Errorf("duplicate variable (%d) in newvars", newvars[k])
 		}
 		support[v] = true
+		target[newvars[k]] = true
 		res.image[v] = int32(newvars[k])
 		if int32(v) > res.last {
 			res.last = int32(v)
-- 
2.43.0


From 812fda4afa2368e0aae4213b16ecdb78a89eded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 16/22] fix: data race between calls to NewReplacer on
 different BDDs

The counter used for the identifiers of replacers is shared by all the BDDs of
the program.
---
 replace.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/replace.go b/replace.go
index f047fc0..ece4d6a 100644
--- a/replace.go
+++ b/replace.go
@@ -7,9 +7,12 @@ package rudd
 import (
 	"fmt"
 	"math"
+	"sync/atomic"
 )
 
-var _REPLACEID = 1
+// _REPLACEID is the last identifier given to a replacer. It is shared between
+// all the BDDs, that can be used in different goroutines.
+var _REPLACEID int64 = 0
 
 // Replacer is the types of substitution objects used in a Replace operation,
 // that substitutes variables in a BDD "function". The only method returning an
@@ -62,11 +65,11 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	if len(oldvars) != len(newvars) {
 		return nil, fmt.Errorf("unmatched length of slices")
 	}
-	if _REPLACEID == (math.MaxInt32 >> 2) {
+	id := atomic.AddInt64(&_REPLACEID, 1)
+	if id >= (math.MaxInt32 >> 2) {
 		return nil, fmt.Errorf("too many replacers created")
 	}
-	res.id = (_REPLACEID << 2) | cacheidREPLACE
-	_REPLACEID++
+	res.id = (int(id) << 2) | cacheidREPLACE
 	varnum := b.Varnum()
 	support := make([]bool, varnum)
 	target := make([]bool, varnum)
-- 
2.43.0


From e26e62d086c5a991b9ba8cd35db6c95e5280cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 17/22] fix: Dot ignored errors

It returned nil when the output stream fails, and with roots that are not valid
nodes. The error status of the BDD was used as a format.
---
 stdio.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/stdio.go b/stdio.go
index 05686f8..87316c3 100644
--- a/stdio.go
+++ b/stdio.go
@@ -5,6 +5,7 @@
 package rudd
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"sort"
@@ -94,26 +95,30 @@ func printSet(w io.Writer, nodes [][4]int) {
 func (b *BDD) Dot(w io.Writer, n ...Node) error {
 	if mesg := b.Error(); mesg != "" {
 		fmt.Fprintf(w, "Error: %s\n", mesg)
-		return fmt.Errorf(mesg)
+		return b.error
 	}
 	// we write the result by visiting each node but we never draw edges to the
-	// False constant.
-	fmt.Fprintln(w, "digraph G {")
-	fmt.Fprintln(w, "1 [shape=box, label=\"1\", style=filled, shape=box, height=0.3, width=0.3];")
-	_ = b.Allnodes(func(id, level, low, high int) error {
+	// False constant. We use a buffer that remembers the first error with w.
+	out := bufio.NewWriter(w)
+	fmt.Fprintln(out, "digraph G {")
+	fmt.Fprintln(out, "1 [shape=box, label=\"1\", style=filled, shape=box, height=0.3, width=0.3];")
+	err := b.Allnodes(func(id, level, low, high int) error {
 		if id > 1 {
-			fmt.Fprintf(w, "%d %s\n", id, dotlabel(id, level))
+			fmt.Fprintf(out, "%d %s\n", id, dotlabel(id, level))
 			if low != 0 {
-				fmt.Fprintf(w, "%d -> %d [style=dotted];\n", id, low)
+				fmt.Fprintf(out, "%d -> %d [style=dotted];\n", id, low)
 			}
 			if high != 0 {
-				fmt.Fprintf(w, "%d -> %d [style=filled];\n", id, high)
+				fmt.Fprintf(out, "%d -> %d [style=filled];\n", id, high)
 			}
 		}
 		return nil
 	}, n...)
-	fmt.Fprintln(w, "}")
-	return nil
+	if err != nil {
+		return err
+	}
+	fmt.Fprintln(out, "}")
+	return out.Flush()
 }
 
 func dotlabel(a int, b int) string {
-- 
2.43.0


From 9d1fd873d3705b9d3459838780c258e8ff86c7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 18/22] fix: Makeset and Makecube did not check their arguments

They built nodes for variables that do not exist, and nodes that break the
order between variables when the indices are not in increasing order. Makeset
now accepts indices in any order, like in BuDDy.
---
 operations.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/operations.go b/operations.go
index 16c11e2..9b97b14 100644
--- a/operations.go
+++ b/operations.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"math/big"
 	"runtime"
+	"sort"
 )
 
 // Scanset returns the set of variables (levels) found when following the high
@@ -44,13 +45,21 @@ func (b *BDD) Makeset(varset []int) Node {
 	// 	res = tmp
 	// }
 	// return res
+	levels := append([]int{}, varset...)
+	sort.Ints(levels)
+	if len(levels) > 0 && (levels[0] < 0 || levels[len(levels)-1] >= int(b.varnum)) {
+		b.seterror("Unknown variable used in call to makeset (%v)", varset)
+		return bddzero
+	}
 	res := 1
 	b.Initref()
-	for k := len(varset) - 1; k >= 0; k-- {
-		res = b.Makenode(int32(varset[k]), 0, res)
-		b.Pushref(res)
+	for k := len(levels) - 1; k >= 0; k-- {
+		if k > 0 && levels[k-1] == levels[k] { // we ignore duplicates
+			continue
+		}
+		res = b.Pushref(b.Makenode(int32(levels[k]), 0, res))
 	}
-	b.Popref(len(varset))
+	b.Initref()
 	return b.Retnode(res)
 }
 
@@ -61,8 +70,8 @@ func (b *BDD) Makeset(varset []int) Node {
 // and polarity are different. As a special case, when varset is empty
 // (len(varset) == 0), we consider that polarity operates over all the variables
 // in b (and therefore we expect that len(polarity) == Varnum). This method is
-// more efficient than using Apply iteratively. The computation may panic if
-// indices in varset are not sorted by order of increasing values.
+// more efficient than using Apply iteratively. It is also an error if indices in
+// varset are out of range, or not sorted by order of increasing values.
 func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 	res := 1
 	if len(varset) == 0 {
@@ -84,6 +93,14 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 	if len(varset) != len(polarity) {
 		return b.seterror("wrong size for slices in Makecube")
 	}
+	for k, v := range varset {
+		if (v < 0) || (v >= int(b.varnum)) {
+			return b.seterror("Unknown variable used (%d) in call to makecube", v)
+		}
+		if k > 0 && v <= varset[k-1] {
+			return b.seterror("variables are not sorted in call to makecube (%v)", varset)
+		}
+	}
 	b.Initref()
 	for k := len(polarity) - 1; k >= 0; k-- {
 		if polarity[k] {
-- 
2.43.0


From 0fafe9379f7ebfcab80efb9afa59a9f14ca4c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 19/22] fix: Replace took exponential time when it changes the
 order of variables

---
 operations.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/operations.go b/operations.go
index 9b97b14..58f3040 100644
--- a/operations.go
+++ b/operations.go
@@ -698,7 +698,6 @@ func (b *BDD) replace(n int, r Replacer) int {
 }
 
 func (b *BDD) correctify(level int32, low, high int) int {
-	/* FIXME: we do not use the cache here */
 	if (level < b.level(low)) && (level < b.level(high)) {
 		return b.Makenode(level, low, high)
 	}
@@ -708,6 +707,12 @@ func (b *BDD) correctify(level int32, low, high int) int {
 		return -1
 	}
 
+	// We share the cache of ite. The first element of the entry is smaller than
+	// -1, so it cannot be mistaken for a node or an empty entry.
+	if res := b.matchite(-2-int(level), low, high); res >= 0 {
+		return res
+	}
+
 	if b.level(low) == b.level(high) {
 		left := b.Pushref(b.correctify(level, b.low(low), b.low(high)))
 		if left < 0 {
@@ -719,7 +724,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 		}
 		res := b.Makenode(b.level(low), left, right)
 		b.Popref(2)
-		return res
+		return b.setite(-2-int(level), low, high, res)
 	}
 
 	if b.level(low) < b.level(high) {
@@ -733,7 +738,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 		}
 		res := b.Makenode(b.level(low), left, right)
 		b.Popref(2)
-		return res
+		return b.setite(-2-int(level), low, high, res)
 	}
 
 	left := b.Pushref(b.correctify(level, low, b.low(high)))
@@ -746,7 +751,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 	}
 	res := b.Makenode(b.level(high), left, right)
 	b.Popref(2)
-	return res
+	return b.setite(-2-int(level), low, high, res)
 }
 
 // Satcount computes the number of satisfying variable assignments for the
-- 
2.43.0


From 71a694dc8dbeae102e377348dc97723616003eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 20/22] fix: the table could not grow with a very large
 Maxnodeincrease

The sum of the size of the table and of the limit overflows, for instance
with Maxnodeincrease(math.MaxInt): the new size is negative, and operations
fail (or panic) as if the table was at its maximal size.
---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 79246f5..38b6dda 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -129,7 +129,7 @@ func (b *tables) noderesize() error {
 	} else {
 		nodesize = nodesize << 1
 	}
-	if b.maxnodeincrease > 0 && nodesize > (oldsize+b.maxnodeincrease) {
+	if b.maxnodeincrease > 0 && b.maxnodeincrease < nodesize-oldsize {
 		nodesize = oldsize + b.maxnodeincrease
 	}
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
diff --git a/hkernel.go b/hkernel.go
index be8700f..4876692 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -176,7 +176,7 @@ func (b *tables) noderesize() error {
 	} else {
 		nodesize = nodesize << 1
 	}
-	if b.maxnodeincrease > 0 && nodesize > (oldsize+b.maxnodeincrease) {
+	if b.maxnodeincrease > 0 && b.maxnodeincrease < nodesize-oldsize {
 		nodesize = oldsize + b.maxnodeincrease
 	}
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
-- 
2.43.0


From 3234be902f2ef4299265d754ef4fe2c33e8e36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 21/22] fix: the default implementation did not compile on
 32-bit machines

The constant indices used to hash nodes on 64-bit machines are out of the
bounds of the array on 32-bit machines.
---
 hudd.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/hudd.go b/hudd.go
index f61f8d9..62870b2 100644
--- a/hudd.go
+++ b/hudd.go
@@ -168,19 +168,21 @@ func (b *tables) huddhash(level int32, low, high int) {
 	b.hbuff[6] = byte(low >> 16)
 	b.hbuff[7] = byte(low >> 24)
 	if huddsize == 20 {
-		// 64 bits machine
-		b.hbuff[8] = byte(low >> 32)
-		b.hbuff[9] = byte(low >> 40)
-		b.hbuff[10] = byte(low >> 48)
-		b.hbuff[11] = byte(low >> 56)
-		b.hbuff[12] = byte(high)
-		b.hbuff[13] = byte(high >> 8)
-		b.hbuff[14] = byte(high >> 16)
-		b.hbuff[15] = byte(high >> 24)
-		b.hbuff[16] = byte(high >> 32)
-		b.hbuff[17] = byte(high >> 40)
-		b.hbuff[18] = byte(high >> 48)
-		b.hbuff[19] = byte(high >> 56)
+		// 64 bits machine; we use a slice because these indices are constants out
+		// of the bounds of the array on 32 bits machines
+		hbuff := b.hbuff[:]
+		hbuff[8] = byte(low >> 32)
+		hbuff[9] = byte(low >> 40)
+		hbuff[10] = byte(low >> 48)
+		hbuff[11] = byte(low >> 56)
+		hbuff[12] = byte(high)
+		hbuff[13] = byte(high >> 8)
+		hbuff[14] = byte(high >> 16)
+		hbuff[15] = byte(high >> 24)
+		hbuff[16] = byte(high >> 32)
+		hbuff[17] = byte(high >> 40)
+		hbuff[18] = byte(high >> 48)
+		hbuff[19] = byte(high >> 56)
 		return
 	}
 	// 32 bits machine
-- 
2.43.0


From fbd99f1fe3f5e02aeac1ce238a21dc2540f15101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 22/22] fix: unaligned atomic counters on 32-bit machines with
 the debug tag

The first word of a 64-bit counter accessed with sync/atomic must be aligned,
which is only guaranteed at the beginning of an allocated struct: Retnode
panics on 32-bit machines with the default implementation.
---
 hudd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hudd.go b/hudd.go
index 62870b2..7ccf436 100644
--- a/hudd.go
+++ b/hudd.go
@@ -21,6 +21,7 @@ import (
 // space but a benefit is that we can easily migrate to a concurrency-safe
 // hashmap if we want to test concurrent data structures.
 type tables struct {
+	gcstat // Information about garbage collections; first, so that its 64 bits counters are aligned on 32 bits machines
 	sync.RWMutex
 	nodes         []huddnode             // List of all the BDD nodes. Constants are always kept at index 0 and 1
 	unique        map[[huddsize]byte]int // Unicity table, used to associate each triplet to a single node
@@ -32,7 +33,6 @@ type tables struct {
 	uniqueAccess  int                    // accesses to the unique node table
 	uniqueHit     int                    // entries actually found in the the unique node table
 	uniqueMiss    int                    // entries not found in the the unique node table
-	gcstat                               // Information about garbage collections
 	configs                              // Configurable parameters
 }
 
-- 
2.43.0

