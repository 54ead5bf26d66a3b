From 08637194fbd9e1fe0ca64aa41374e0de0ac3b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:18 +0000
Subject: [PATCH 01/34] fix: Tarjan numbering must not reuse the 'unvisited'
 index

The SCC finder treats index 0 as "not visited" but handed out 0 to the first
node, which was then visited again and reported in a second, spurious component.
With mutually left-recursive rules the recognizer ended up with two different
components for the same rule and could panic on a nil seed map, depending on the
map iteration order.
---
 dag.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dag.go b/dag.go
index 4d004e4..3ac9f76 100644
--- a/dag.go
+++ b/dag.go
@@ -186,6 +186,8 @@ type cycle struct {
 }
 
 func (c *cycle) find() {
+	// Index 0 marks a node that was not visited yet, so numbering starts at 1.
+	c.index = 1
 	for _, v := range c.dg {
 		if v.index == 0 {
 			c.strongconnect(v)
-- 
2.43.0


From 86a35d709cf5d65399694e82a8199be93545122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:27 +0000
Subject: [PATCH 02/34] fix: IsDAG must report a rule that refers to itself as
 a cycle

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index 3ac9f76..55e19c9 100644
--- a/dag.go
+++ b/dag.go
@@ -92,6 +92,10 @@ func (g *Grammar) IsDAG() bool {
 		if len(sccs) > 1 {
 			return false
 		}
+		// A component of a single rule is cyclic when the rule refers to itself.
+		if slices.Contains(sccs[0].Dependencies, strings.ToLower(sccs[0].Rulename)) {
+			return false
+		}
 	}
 	return true
 }
-- 
2.43.0


From 453f947cedf6a05b1418546894800957cd5a536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:36 +0000
Subject: [PATCH 03/34] fix: keep the case-sensitivity of a char-val in its
 textual form

ElemCharVal.String dropped the %s marker, so printing a grammar lost it, and
the recognizer's memo and the slot grammar's interning, both keyed by that text,
conflated %s"a" with "a".
---
 abnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abnf.go b/abnf.go
index 5173714..a8e413f 100644
--- a/abnf.go
+++ b/abnf.go
@@ -151,6 +151,9 @@ func (ecvl ElemCharVal) String() string {
 	for _, val := range ecvl.Values {
 		str += string(val)
 	}
+	if ecvl.Sensitive {
+		return `%s"` + str + `"`
+	}
 	return `"` + str + `"`
 }
 
-- 
2.43.0


From 6242bd6932418b264d439b054f8689b70836c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:38 +0000
Subject: [PATCH 04/34] fix: recognize repetitions with a minimum exactly

reachRep stopped as soon as an occurrence reached no new position, although a
position reached with too few occurrences may be reached again with enough of
them (3*("a" / "aaa") on "aaaa"), and gave up after len(input)+2 occurrences,
although an element matching the empty string may be repeated further (5"" on
the empty input).
---
 recognize.go | 67 ++++++++++++++++++++++++++--------------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/recognize.go b/recognize.go
index 2f18570..570171c 100644
--- a/recognize.go
+++ b/recognize.go
@@ -1,6 +1,7 @@
 package goabnf
 
 import (
+	"maps"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -70,52 +71,52 @@ func (r *recognizer) reachConcat(c Concatenation, index int) map[int]bool {
 
 func (r *recognizer) reachRep(rep Repetition, index int) map[int]bool {
 	ends := map[int]bool{}
-	if rep.Min == 0 {
-		ends[index] = true
+	if rep.Max != inf && rep.Max < rep.Min {
+		return ends
 	}
-
-	// level = positions reachable after exactly c occurrences.
-	level := map[int]bool{index: true}
-	// seen = every position reached at any count so far. reachElem only moves
-	// forward (an end position is >= its start), so once a step introduces no
-	// position outside seen, the reachable set has closed and no later
-	// repetition can add a new end position. Breaking there keeps an unbounded
-	// repetition over an element with large reach-sets (e.g. *(1*ALPHA)) at
-	// O(n^2); the previous len(next)==len(level) test never tripped because
-	// level shrank by one each step ({1..n}, {2..n}, ...), giving O(n^3).
-	seen := map[int]bool{index: true}
-
-	cap := len(r.input) + 2
-	for c := 1; c <= cap; c++ {
-		if rep.Max != inf && c > rep.Max {
-			break
-		}
+	step := func(from map[int]bool) map[int]bool {
 		next := map[int]bool{}
-		for p := range level {
+		for p := range from {
 			for e := range r.reachElem(rep.Element, p) {
 				next[e] = true
 			}
 		}
+		return next
+	}
+
+	// level = positions reachable after exactly c occurrences, up to the minimum.
+	// reachElem only moves forward, so the levels either die out or settle: once
+	// one more occurrence leaves the level unchanged, every higher count reaches
+	// exactly the same positions.
+	level := map[int]bool{index: true}
+	for c := 0; c < rep.Min; c++ {
+		next := step(level)
 		if len(next) == 0 {
-			break
+			return ends
 		}
-		if c >= rep.Min {
-			for e := range next {
-				ends[e] = true
-			}
+		if maps.Equal(next, level) {
+			break
 		}
-		grew := false
+		level = next
+	}
+
+	// From there on, an occurrence more only matters from the positions that were
+	// not reached with fewer occurrences: each position is expanded at most once,
+	// which keeps an unbounded repetition over an element with large reach-sets
+	// (e.g. *(1*ALPHA)) at O(n^2).
+	for e := range level {
+		ends[e] = true
+	}
+	for c := rep.Min; len(level) > 0 && (rep.Max == inf || c < rep.Max); c++ {
+		next := step(level)
 		for e := range next {
-			if !seen[e] {
-				seen[e] = true
-				grew = true
+			if ends[e] {
+				delete(next, e)
+				continue
 			}
+			ends[e] = true
 		}
 		level = next
-		// Reachable set closed and the minimum-count requirement met.
-		if !grew && c >= rep.Min {
-			break
-		}
 	}
 	return ends
 }
-- 
2.43.0


From f9a0c8e8416f964ca9af3022a84f43c2d9f7dcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:47 +0000
Subject: [PATCH 05/34] fix: do not memoize groups and options while a
 left-recursive seed grows

Their reachable ends may depend on the seed (a = (a "x") / "y", a = [a] "x"),
so caching the result of an early growth round, or answering a nested occurrence
of the same group with the empty set, made IsValid reject derivable inputs.
---
 grammar.go   |  1 +
 recognize.go | 23 ++++++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 8b3932a..762813a 100644
--- a/grammar.go
+++ b/grammar.go
@@ -34,6 +34,7 @@ func (g *Grammar) IsValid(rulename string, input []byte) (bool, error) {
 		inProgress: map[string]bool{},
 		leftRec:    g.leftRecursiveSCCs(),
 		growing:    map[string]map[int]bool{},
+		growingAt:  map[int]int{},
 	}
 	ends := r.reachElem(ElemRulename{Name: rulename}, 0)
 	return ends[len(input)], nil
diff --git a/recognize.go b/recognize.go
index 570171c..d1bfe63 100644
--- a/recognize.go
+++ b/recognize.go
@@ -30,8 +30,10 @@ type recognizer struct {
 	// name) to its left-corner SCC, grown jointly. growing holds the live seed
 	// of each rule currently being grown (key "rule@index"); a re-entrant call
 	// returns the seed instead of recursing.
-	leftRec map[string][]string
-	growing map[string]map[int]bool
+	// growingAt counts the seeds being grown per index.
+	leftRec   map[string][]string
+	growing   map[string]map[int]bool
+	growingAt map[int]int
 }
 
 func cloneSet(s map[int]bool) map[int]bool {
@@ -125,7 +127,8 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	// Left-recursive rulenames are resolved by seed-growing rather than the
 	// flat memoized recursion below (which would cut the recursion to empty and
 	// under-accept).
-	if rn, ok := elem.(ElemRulename); ok {
+	rn, isRule := elem.(ElemRulename)
+	if isRule {
 		if scc, isLR := r.leftRec[strings.ToLower(rn.Name)]; isLR {
 			return r.reachLeftRec(strings.ToLower(rn.Name), scc, index)
 		}
@@ -135,15 +138,22 @@ func (r *recognizer) reachElem(elem ElemItf, index int) map[int]bool {
 	if cached, ok := r.memo[key]; ok {
 		return cached
 	}
-	if r.inProgress[key] {
+	if isRule && r.inProgress[key] {
 		// Re-entry at the same position == non-progressing recursion in a rule
 		// not flagged left-recursive. Return empty (defense-in-depth) instead of
 		// looping forever.
 		return map[int]bool{}
 	}
-	r.inProgress[key] = true
+	if isRule {
+		r.inProgress[key] = true
+	}
 	out := r.computeElem(elem, index)
 	delete(r.inProgress, key)
+	// The reach of an anonymous element (e.g. a group) met where a seed is being
+	// grown may depend on that seed, hence is not final yet.
+	if !isRule && r.growingAt[index] > 0 {
+		return out
+	}
 	// Safe to cache: a rule reached here either is independent of any actively
 	// growing seed, or is itself a growing SCC member (handled by reachLeftRec
 	// via r.growing, not this path). A lower left-corner SCC cannot reference
@@ -174,6 +184,7 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 		keys[i] = x + sidx
 		r.growing[keys[i]] = map[int]bool{}
 	}
+	r.growingAt[index]++
 	for changed := true; changed; {
 		changed = false
 		for i, x := range scc {
@@ -192,6 +203,8 @@ func (r *recognizer) reachLeftRec(name string, scc []string, index int) map[int]
 		}
 	}
 
+	r.growingAt[index]--
+
 	// The fixpoint converged. These end-sets are final and independent of any
 	// outer growing seed (the SCC only re-references its own members, held in
 	// r.growing, and strictly lower SCCs, which cannot reference it back), so
-- 
2.43.0


From 49d3581087479e9163e3ee5b9c99c1571f19743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:22 +0000
Subject: [PATCH 06/34] fix: count derivations through different alternates
 apart in the forest

Two alternates deriving the same children (a = "x" / "x") were packed as one, so
Forest.NumTrees and Forest.Ambiguous disagreed with their BSR counterparts.
---
 sppf.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sppf.go b/sppf.go
index 9c4d507..d4587ee 100644
--- a/sppf.go
+++ b/sppf.go
@@ -247,11 +247,14 @@ type gnode struct {
 	nt         int // symbol nonterminal id, for gSymbol
 	Start, End int
 	packs      [][]*gnode // each pack has 1 or 2 children; >1 pack == ambiguity
+	packAlts   []int      // alternate each pack derives from
 }
 
-func (n *gnode) addPack(children []*gnode) {
-	for _, p := range n.packs {
-		if len(p) != len(children) {
+// addPack records a derivation of the node through alternate alt. Two alternates
+// deriving the same children (e.g. a = "x" / "x") are distinct derivations.
+func (n *gnode) addPack(alt int, children []*gnode) {
+	for i, p := range n.packs {
+		if n.packAlts[i] != alt || len(p) != len(children) {
 			continue
 		}
 		same := true
@@ -266,6 +269,7 @@ func (n *gnode) addPack(children []*gnode) {
 		}
 	}
 	n.packs = append(n.packs, children)
+	n.packAlts = append(n.packAlts, alt)
 }
 
 // ---------------------------------------------------------------------------
@@ -416,9 +420,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	y := p.findNode(k)
 	if w != nil {
-		y.addPack([]*gnode{w, z})
+		y.addPack(L.alt, []*gnode{w, z})
 	} else {
-		y.addPack([]*gnode{z})
+		y.addPack(L.alt, []*gnode{z})
 	}
 	return y
 }
-- 
2.43.0


From b943aa498c05566d288cedf08efad80687aa9c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:32 +0000
Subject: [PATCH 07/34] fix: keep derivations of a counted repetition apart per
 count

The parse forests (and generated parsers) shared the node of a repetition between
different occurrence counts, so a sub-derivation that is only possible at one
count was offered at all of them: 2*3("a" / "aa") on "aaaa" had 5 trees instead
of 4, 2*3("a" / "") on "" had infinitely many instead of 2, and the extracted
tree could hold more or fewer occurrences than the grammar allows.
---
 bsr.go     | 130 ++++++++++++++++++++++++++----------------------
 codegen.go | 143 +++++++++++++++++++++++++++++++----------------------
 sppf.go    |  20 ++++----
 3 files changed, 166 insertions(+), 127 deletions(-)

diff --git a/bsr.go b/bsr.go
index 75f3309..0d541c3 100644
--- a/bsr.go
+++ b/bsr.go
@@ -27,9 +27,12 @@ import (
 // bsrElem is one binary subtree element. The slot's dot is "just past" the most
 // recently consumed symbol; that symbol spans [k,r] and the earlier prefix spans
 // [l,k]. A complete production (dot == len) records the nonterminal's extent.
+// rc is the repetition count the slot was reached with (0 outside a counted
+// repetition): what a counted repetition may still derive depends on it.
 type bsrElem struct {
 	slot    slot
 	l, k, r int
+	rc      int
 }
 
 // bsrGNode is a GSS node for the BSR engine. Unlike the SPPF GSS, its edges are
@@ -89,14 +92,14 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 // when the consumed prefix has length >= 2 (an intermediate extent) or the
 // production is complete (dot == len). A length-1 prefix is degenerate (l == k)
 // and is reconstructed directly from the single symbol, so it is not stored.
-func (p *bsrParser) record(L slot, l, k, r int) {
+func (p *bsrParser) record(L slot, l, k, r, rc int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
 		if p.maxElems > 0 && len(p.set) >= p.maxElems {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, l, k, r, rc}] = true
 	}
 }
 
@@ -106,7 +109,7 @@ func (p *bsrParser) create(ret slot, u *bsrGNode, i, rc int) *bsrGNode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, u.pos, i, j, rc)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -122,7 +125,7 @@ func (p *bsrParser) pop(u *bsrGNode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, v.pos, u.pos, j, u.rc)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -240,7 +243,7 @@ func (p *bsrParser) process(d bsrDesc) {
 			return
 		}
 		next := slot{L.nt, L.alt, L.dot + 1}
-		p.record(next, u.pos, i, j)
+		p.record(next, u.pos, i, j, rc)
 		i = j
 		L = next
 	}
@@ -257,7 +260,7 @@ type BSRForest struct {
 	input    []byte
 	rulename string
 	set      map[bsrElem]bool
-	index    map[bsrKey][]int // (slot,l,r) -> pivots k
+	index    map[bsrKey][]int // (slot,l,r,rc) -> pivots k
 	start    int
 	n        int
 }
@@ -265,12 +268,22 @@ type BSRForest struct {
 type bsrKey struct {
 	slot slot
 	l, r int
+	rc   int
+}
+
+// childRC returns the repetition count at which s, met in a production of
+// nonterminal nt at count rc, is derived. It mirrors bsrParser.process.
+func (f *BSRForest) childRC(nt int, s ssym, rc int) int {
+	if s.kind == symNonterm && s.nt == nt && f.sg.nts[nt].isRep {
+		return capRC(rc, f.sg.nts[nt])
+	}
+	return 0
 }
 
 func (f *BSRForest) buildIndex() {
 	f.index = make(map[bsrKey][]int, len(f.set))
 	for e := range f.set {
-		k := bsrKey{e.slot, e.l, e.r}
+		k := bsrKey{e.slot, e.l, e.r, e.rc}
 		f.index[k] = append(f.index[k], e.k)
 	}
 }
@@ -280,7 +293,7 @@ func (f *BSRForest) buildIndex() {
 func (f *BSRForest) startElems() (slot, []int, bool) {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if ks := f.index[bsrKey{s, 0, f.n}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{s, 0, f.n, 0}]; len(ks) > 0 {
 			return s, ks, true
 		}
 	}
@@ -291,7 +304,7 @@ func (f *BSRForest) startElems() (slot, []int, bool) {
 func (f *BSRForest) Valid() bool {
 	for ai, prod := range f.sg.nts[f.start].alts {
 		s := slot{f.start, ai, len(prod)}
-		if len(f.index[bsrKey{s, 0, f.n}]) > 0 {
+		if len(f.index[bsrKey{s, 0, f.n, 0}]) > 0 {
 			return true
 		}
 	}
@@ -307,6 +320,7 @@ type bsrNodeID struct {
 	slot  slot // for intermediate nodes
 	nt    int  // for symbol nodes
 	l, r  int
+	rc    int
 }
 
 // NumTrees returns the number of distinct parse trees represented, or -1 for
@@ -320,35 +334,35 @@ func (f *BSRForest) NumTrees() *big.Int {
 	onStack := map[bsrNodeID]bool{}
 	infinite := false
 
-	var symWays func(s ssym, a, b int) *big.Int
-	var countSym func(nt, l, r int) *big.Int
-	var countInter func(sl slot, l, r int) *big.Int
-	var countElem func(sl slot, l, k, r int) *big.Int
+	var symWays func(s ssym, a, b, rc int) *big.Int
+	var countSym func(nt, l, r, rc int) *big.Int
+	var countInter func(sl slot, l, r, rc int) *big.Int
+	var countElem func(sl slot, l, k, r, rc int) *big.Int
 
-	symWays = func(s ssym, a, b int) *big.Int {
+	symWays = func(s ssym, a, b, rc int) *big.Int {
 		if s.kind == symNonterm {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, a, b, rc)
 		}
 		return big.NewInt(1) // terminal / eps leaf
 	}
 
-	countElem = func(sl slot, l, k, r int) *big.Int {
+	countElem = func(sl slot, l, k, r, rc int) *big.Int {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		last := symWays(prod[sl.dot-1], k, r)
+		last := symWays(prod[sl.dot-1], k, r, f.childRC(sl.nt, prod[sl.dot-1], rc))
 		var pre *big.Int
 		switch sl.dot {
 		case 1: // empty prefix (l == k)
 			pre = big.NewInt(1)
 		case 2: // single-symbol prefix
-			pre = symWays(prod[0], l, k)
+			pre = symWays(prod[0], l, k, 0)
 		default: // intermediate prefix
-			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			pre = countInter(slot{sl.nt, sl.alt, sl.dot - 1}, l, k, rc)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
 
-	countInter = func(sl slot, l, r int) *big.Int {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	countInter = func(sl slot, l, r, rc int) *big.Int {
+		id := bsrNodeID{inter: true, slot: sl, l: l, r: r, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -358,16 +372,16 @@ func (f *BSRForest) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range f.index[bsrKey{sl, l, r}] {
-			total.Add(total, countElem(sl, l, k, r))
+		for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+			total.Add(total, countElem(sl, l, k, r, rc))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
 
-	countSym = func(nt, l, r int) *big.Int {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	countSym = func(nt, l, r, rc int) *big.Int {
+		id := bsrNodeID{nt: nt, l: l, r: r, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -379,8 +393,8 @@ func (f *BSRForest) NumTrees() *big.Int {
 		total := big.NewInt(0)
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				total.Add(total, countElem(sl, l, k, r))
+			for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+				total.Add(total, countElem(sl, l, k, r, rc))
 			}
 		}
 		onStack[id] = false
@@ -388,7 +402,7 @@ func (f *BSRForest) NumTrees() *big.Int {
 		return total
 	}
 
-	res := countSym(f.start, 0, f.n)
+	res := countSym(f.start, 0, f.n, 0)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -402,49 +416,49 @@ func (f *BSRForest) Ambiguous() bool {
 	}
 	visited := map[bsrNodeID]bool{}
 
-	var symAmb func(nt, l, r int) bool
-	var interAmb func(sl slot, l, r int) bool
-	var elemAmb func(sl slot, l, k, r int) bool
+	var symAmb func(nt, l, r, rc int) bool
+	var interAmb func(sl slot, l, r, rc int) bool
+	var elemAmb func(sl slot, l, k, r, rc int) bool
 
-	symOf := func(s ssym, a, b int) bool {
+	symOf := func(s ssym, a, b, rc int) bool {
 		if s.kind == symNonterm {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, a, b, rc)
 		}
 		return false
 	}
-	elemAmb = func(sl slot, l, k, r int) bool {
+	elemAmb = func(sl slot, l, k, r, rc int) bool {
 		prod := f.sg.nts[sl.nt].alts[sl.alt]
-		if symOf(prod[sl.dot-1], k, r) {
+		if symOf(prod[sl.dot-1], k, r, f.childRC(sl.nt, prod[sl.dot-1], rc)) {
 			return true
 		}
 		switch sl.dot {
 		case 1:
 			return false
 		case 2:
-			return symOf(prod[0], l, k)
+			return symOf(prod[0], l, k, 0)
 		default:
-			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k)
+			return interAmb(slot{sl.nt, sl.alt, sl.dot - 1}, l, k, rc)
 		}
 	}
-	interAmb = func(sl slot, l, r int) bool {
-		id := bsrNodeID{inter: true, slot: sl, l: l, r: r}
+	interAmb = func(sl slot, l, r, rc int) bool {
+		id := bsrNodeID{inter: true, slot: sl, l: l, r: r, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := f.index[bsrKey{sl, l, r}]
+		ks := f.index[bsrKey{sl, l, r, rc}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, r) {
+			if elemAmb(sl, l, k, r, rc) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, r int) bool {
-		id := bsrNodeID{nt: nt, l: l, r: r}
+	symAmb = func(nt, l, r, rc int) bool {
+		id := bsrNodeID{nt: nt, l: l, r: r, rc: rc}
 		if visited[id] {
 			return false
 		}
@@ -452,7 +466,7 @@ func (f *BSRForest) Ambiguous() bool {
 		packs := 0
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			ks := f.index[bsrKey{sl, l, r}]
+			ks := f.index[bsrKey{sl, l, r, rc}]
 			packs += len(ks)
 		}
 		if packs > 1 {
@@ -460,15 +474,15 @@ func (f *BSRForest) Ambiguous() bool {
 		}
 		for ai, prod := range f.sg.nts[nt].alts {
 			sl := slot{nt, ai, len(prod)}
-			for _, k := range f.index[bsrKey{sl, l, r}] {
-				if elemAmb(sl, l, k, r) {
+			for _, k := range f.index[bsrKey{sl, l, r, rc}] {
+				if elemAmb(sl, l, k, r, rc) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(f.start, 0, f.n)
+	return symAmb(f.start, 0, f.n, 0)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -490,7 +504,7 @@ func (f *BSRForest) Tree() *ParseTree {
 // complete-production slot sl with pivot k.
 func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]bool) *ParseTree {
 	var kids []*ParseTree
-	f.collectElem(sl, l, k, r, &kids, visited)
+	f.collectElem(sl, l, k, r, 0, &kids, visited)
 	info := f.sg.nts[nt]
 	if !info.isRule {
 		// synthetic (group/option/rep): splice children into the parent
@@ -501,25 +515,25 @@ func (f *BSRForest) emitSym(nt int, sl slot, k, l, r int, visited map[bsrNodeID]
 
 // collectElem appends the children of element (sl,l,k,r) into out, flattening
 // intermediate extents and synthetic nonterminals.
-func (f *BSRForest) collectElem(sl slot, l, k, r int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectElem(sl slot, l, k, r, rc int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	prod := f.sg.nts[sl.nt].alts[sl.alt]
 	// prefix x_1..x_{dot-1} over [l,k]
 	switch sl.dot {
 	case 1:
 		// empty
 	case 2:
-		f.collectChild(prod[0], l, k, out, visited)
+		f.collectChild(prod[0], l, k, 0, out, visited)
 	default:
 		isl := slot{sl.nt, sl.alt, sl.dot - 1}
-		if ks := f.index[bsrKey{isl, l, k}]; len(ks) > 0 {
-			f.collectElem(isl, l, ks[0], k, out, visited)
+		if ks := f.index[bsrKey{isl, l, k, rc}]; len(ks) > 0 {
+			f.collectElem(isl, l, ks[0], k, rc, out, visited)
 		}
 	}
 	// last symbol x_{dot} over [k,r]
-	f.collectChild(prod[sl.dot-1], k, r, out, visited)
+	f.collectChild(prod[sl.dot-1], k, r, f.childRC(sl.nt, prod[sl.dot-1], rc), out, visited)
 }
 
-func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
+func (f *BSRForest) collectChild(s ssym, a, b, rc int, out *[]*ParseTree, visited map[bsrNodeID]bool) {
 	if s.kind != symNonterm {
 		if s.kind == symEps {
 			return // epsilon contributes no leaf
@@ -527,7 +541,7 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := bsrNodeID{nt: s.nt, l: a, r: b}
+	id := bsrNodeID{nt: s.nt, l: a, r: b, rc: rc}
 	if visited[id] {
 		return
 	}
@@ -535,15 +549,15 @@ func (f *BSRForest) collectChild(s ssym, a, b int, out *[]*ParseTree, visited ma
 	// pick the first complete-production element for this nonterminal extent
 	for ai, prod := range f.sg.nts[s.nt].alts {
 		csl := slot{s.nt, ai, len(prod)}
-		if ks := f.index[bsrKey{csl, a, b}]; len(ks) > 0 {
+		if ks := f.index[bsrKey{csl, a, b, rc}]; len(ks) > 0 {
 			info := f.sg.nts[s.nt]
 			if info.isRule {
 				var kids []*ParseTree
-				f.collectElem(csl, a, ks[0], b, &kids, visited)
+				f.collectElem(csl, a, ks[0], b, rc, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: info.ruleName, Start: a, End: b, Children: kids})
 			} else {
 				// synthetic: splice its children directly into the parent
-				f.collectElem(csl, a, ks[0], b, out, visited)
+				f.collectElem(csl, a, ks[0], b, rc, out, visited)
 			}
 			visited[id] = false
 			return
diff --git a/codegen.go b/codegen.go
index 39129e9..664bbf0 100644
--- a/codegen.go
+++ b/codegen.go
@@ -204,12 +204,12 @@ func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
 
 func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 	if sym.kind == symEps {
-		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i)\n", nextID)
+		fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, i, rc)\n", nextID)
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
 	c.emitMatch(b, sym) // sets j or returns on failure
-	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j)\n", nextID)
+	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j, rc)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
@@ -340,7 +340,11 @@ func (c *codegen) emitMetadata(b *strings.Builder) {
 
 	b.WriteString("var qNTs = []qNT{\n")
 	for _, nt := range c.sg.nts {
-		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, alts: ", nt.isRule, nt.ruleName)
+		fmt.Fprintf(b, "\t{isRule: %v, ruleName: %q, ", nt.isRule, nt.ruleName)
+		if nt.isRep {
+			fmt.Fprintf(b, "isRep: true, repMin: %d, repMax: %d, ", nt.repMin, nt.repMax)
+		}
+		b.WriteString("alts: ")
 		if len(nt.alts) == 0 {
 			b.WriteString("nil},\n")
 			continue
@@ -473,6 +477,9 @@ type qSym struct{ kind, nt int }
 // qNT is query-only nonterminal metadata.
 type qNT struct {
 	isRule   bool
+	isRep    bool // counted repetition bounded by repMin, repMax
+	repMin   int
+	repMax   int
 	ruleName string
 	alts     [][]qSym
 }
@@ -480,6 +487,7 @@ type qNT struct {
 type bsrElem struct {
 	sl      int
 	l, k, r int
+	rc      int // repetition count the slot was reached with
 }
 
 type gssKey struct {
@@ -559,14 +567,14 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 
 // record inserts a BSR element, keeping only intermediate (prefix length >= 2)
 // or complete (dot == len) extents.
-func (p *parser) record(L, l, k, r int) {
+func (p *parser) record(L, l, k, r, rc int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
 		if MaxElements > 0 && len(p.set) >= MaxElements {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r}] = true
+		p.set[bsrElem{L, l, k, r, rc}] = true
 	}
 }
 
@@ -576,7 +584,7 @@ func (p *parser) create(ret int, u *gnode, i, rc int) *gnode {
 		v.edgeSet[u] = true
 		v.edges = append(v.edges, u)
 		for j := range p.popped[v] {
-			p.record(ret, u.pos, i, j)
+			p.record(ret, u.pos, i, j, rc)
 			p.add(ret, u, j, rc)
 		}
 	}
@@ -592,7 +600,7 @@ func (p *parser) pop(u *gnode, j int) {
 	}
 	p.popped[u][j] = true
 	for _, v := range u.edges {
-		p.record(u.ret, v.pos, u.pos, j)
+		p.record(u.ret, v.pos, u.pos, j, u.rc)
 		p.add(u.ret, v, j, u.rc)
 	}
 }
@@ -612,12 +620,27 @@ type ParseTree struct {
 type bsrKey struct {
 	sl   int
 	l, r int
+	rc   int
 }
 
 type nodeID struct {
 	sl   int // slot id for intermediate nodes; -1 for symbol nodes
 	nt   int // nonterminal id for symbol nodes
 	l, r int
+	rc   int
+}
+
+// childRC returns the repetition count at which s, met in a production of
+// nonterminal nt at count rc, is derived.
+func childRC(nt int, s qSym, rc int) int {
+	if s.kind != kNT || s.nt != nt || !qNTs[nt].isRep {
+		return 0
+	}
+	next := rc + 1
+	if qNTs[nt].repMax == inf && next > qNTs[nt].repMin {
+		next = qNTs[nt].repMin
+	}
+	return next
 }
 
 // Result holds the BSR set for a parse and answers queries over it.
@@ -634,7 +657,7 @@ func (r *Result) buildIndex() {
 	}
 	r.index = make(map[bsrKey][]int, len(r.set))
 	for e := range r.set {
-		bk := bsrKey{e.sl, e.l, e.r}
+		bk := bsrKey{e.sl, e.l, e.r, e.rc}
 		r.index[bk] = append(r.index[bk], e.k)
 	}
 }
@@ -643,7 +666,7 @@ func (r *Result) buildIndex() {
 func (r *Result) Valid() bool {
 	r.buildIndex()
 	for _, sl := range ntComplete[gStart] {
-		if len(r.index[bsrKey{sl, 0, r.n}]) > 0 {
+		if len(r.index[bsrKey{sl, 0, r.n, 0}]) > 0 {
 			return true
 		}
 	}
@@ -662,34 +685,34 @@ func (r *Result) NumTrees() *big.Int {
 	onStack := map[nodeID]bool{}
 	infinite := false
 
-	var symWays func(s qSym, a, b int) *big.Int
-	var countSym func(nt, l, rr int) *big.Int
-	var countInter func(sl, l, rr int) *big.Int
-	var countElem func(sl, l, k, rr int) *big.Int
+	var symWays func(s qSym, a, b, rc int) *big.Int
+	var countSym func(nt, l, rr, rc int) *big.Int
+	var countInter func(sl, l, rr, rc int) *big.Int
+	var countElem func(sl, l, k, rr, rc int) *big.Int
 
-	symWays = func(s qSym, a, b int) *big.Int {
+	symWays = func(s qSym, a, b, rc int) *big.Int {
 		if s.kind == kNT {
-			return countSym(s.nt, a, b)
+			return countSym(s.nt, a, b, rc)
 		}
 		return big.NewInt(1)
 	}
-	countElem = func(sl, l, k, rr int) *big.Int {
+	countElem = func(sl, l, k, rr, rc int) *big.Int {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		last := symWays(prod[si.dot-1], k, rr)
+		last := symWays(prod[si.dot-1], k, rr, childRC(si.nt, prod[si.dot-1], rc))
 		var pre *big.Int
 		switch {
 		case si.dot == 1:
 			pre = big.NewInt(1)
 		case si.dot == 2:
-			pre = symWays(prod[0], l, k)
+			pre = symWays(prod[0], l, k, 0)
 		default:
-			pre = countInter(sl-1, l, k)
+			pre = countInter(sl-1, l, k, rc)
 		}
 		return new(big.Int).Mul(pre, last)
 	}
-	countInter = func(sl, l, rr int) *big.Int {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	countInter = func(sl, l, rr, rc int) *big.Int {
+		id := nodeID{sl: sl, nt: -1, l: l, r: rr, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -699,15 +722,15 @@ func (r *Result) NumTrees() *big.Int {
 		}
 		onStack[id] = true
 		total := big.NewInt(0)
-		for _, k := range r.index[bsrKey{sl, l, rr}] {
-			total.Add(total, countElem(sl, l, k, rr))
+		for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+			total.Add(total, countElem(sl, l, k, rr, rc))
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	countSym = func(nt, l, rr int) *big.Int {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	countSym = func(nt, l, rr, rc int) *big.Int {
+		id := nodeID{sl: -1, nt: nt, l: l, r: rr, rc: rc}
 		if v, ok := memo[id]; ok {
 			return v
 		}
@@ -718,15 +741,15 @@ func (r *Result) NumTrees() *big.Int {
 		onStack[id] = true
 		total := big.NewInt(0)
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				total.Add(total, countElem(sl, l, k, rr))
+			for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+				total.Add(total, countElem(sl, l, k, rr, rc))
 			}
 		}
 		onStack[id] = false
 		memo[id] = total
 		return total
 	}
-	res := countSym(gStart, 0, r.n)
+	res := countSym(gStart, 0, r.n, 0)
 	if infinite {
 		return big.NewInt(-1)
 	}
@@ -739,71 +762,71 @@ func (r *Result) Ambiguous() bool {
 		return false
 	}
 	visited := map[nodeID]bool{}
-	var symAmb func(nt, l, rr int) bool
-	var interAmb func(sl, l, rr int) bool
-	var elemAmb func(sl, l, k, rr int) bool
-	var symOf func(s qSym, a, b int) bool
-	symOf = func(s qSym, a, b int) bool {
+	var symAmb func(nt, l, rr, rc int) bool
+	var interAmb func(sl, l, rr, rc int) bool
+	var elemAmb func(sl, l, k, rr, rc int) bool
+	var symOf func(s qSym, a, b, rc int) bool
+	symOf = func(s qSym, a, b, rc int) bool {
 		if s.kind == kNT {
-			return symAmb(s.nt, a, b)
+			return symAmb(s.nt, a, b, rc)
 		}
 		return false
 	}
-	elemAmb = func(sl, l, k, rr int) bool {
+	elemAmb = func(sl, l, k, rr, rc int) bool {
 		si := slotInfo[sl]
 		prod := qNTs[si.nt].alts[si.alt]
-		if symOf(prod[si.dot-1], k, rr) {
+		if symOf(prod[si.dot-1], k, rr, childRC(si.nt, prod[si.dot-1], rc)) {
 			return true
 		}
 		switch {
 		case si.dot == 1:
 			return false
 		case si.dot == 2:
-			return symOf(prod[0], l, k)
+			return symOf(prod[0], l, k, 0)
 		default:
-			return interAmb(sl-1, l, k)
+			return interAmb(sl-1, l, k, rc)
 		}
 	}
-	interAmb = func(sl, l, rr int) bool {
-		id := nodeID{sl: sl, nt: -1, l: l, r: rr}
+	interAmb = func(sl, l, rr, rc int) bool {
+		id := nodeID{sl: sl, nt: -1, l: l, r: rr, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
-		ks := r.index[bsrKey{sl, l, rr}]
+		ks := r.index[bsrKey{sl, l, rr, rc}]
 		if len(ks) > 1 {
 			return true
 		}
 		for _, k := range ks {
-			if elemAmb(sl, l, k, rr) {
+			if elemAmb(sl, l, k, rr, rc) {
 				return true
 			}
 		}
 		return false
 	}
-	symAmb = func(nt, l, rr int) bool {
-		id := nodeID{sl: -1, nt: nt, l: l, r: rr}
+	symAmb = func(nt, l, rr, rc int) bool {
+		id := nodeID{sl: -1, nt: nt, l: l, r: rr, rc: rc}
 		if visited[id] {
 			return false
 		}
 		visited[id] = true
 		packs := 0
 		for _, sl := range ntComplete[nt] {
-			packs += len(r.index[bsrKey{sl, l, rr}])
+			packs += len(r.index[bsrKey{sl, l, rr, rc}])
 		}
 		if packs > 1 {
 			return true
 		}
 		for _, sl := range ntComplete[nt] {
-			for _, k := range r.index[bsrKey{sl, l, rr}] {
-				if elemAmb(sl, l, k, rr) {
+			for _, k := range r.index[bsrKey{sl, l, rr, rc}] {
+				if elemAmb(sl, l, k, rr, rc) {
 					return true
 				}
 			}
 		}
 		return false
 	}
-	return symAmb(gStart, 0, r.n)
+	return symAmb(gStart, 0, r.n, 0)
 }
 
 // Tree extracts a single parse tree (first element at each extent), or nil if
@@ -813,31 +836,31 @@ func (r *Result) Tree() *ParseTree {
 		return nil
 	}
 	for _, sl := range ntComplete[gStart] {
-		if ks := r.index[bsrKey{sl, 0, r.n}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, 0, r.n, 0}]; len(ks) > 0 {
 			var kids []*ParseTree
-			r.collectElem(sl, 0, ks[0], r.n, &kids, map[nodeID]bool{})
+			r.collectElem(sl, 0, ks[0], r.n, 0, &kids, map[nodeID]bool{})
 			return &ParseTree{Rule: qNTs[gStart].ruleName, Start: 0, End: r.n, Children: kids}
 		}
 	}
 	return nil
 }
 
-func (r *Result) collectElem(sl, l, k, rr int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectElem(sl, l, k, rr, rc int, out *[]*ParseTree, visited map[nodeID]bool) {
 	si := slotInfo[sl]
 	prod := qNTs[si.nt].alts[si.alt]
 	switch {
 	case si.dot == 1:
 	case si.dot == 2:
-		r.collectChild(prod[0], l, k, out, visited)
+		r.collectChild(prod[0], l, k, 0, out, visited)
 	default:
-		if ks := r.index[bsrKey{sl - 1, l, k}]; len(ks) > 0 {
-			r.collectElem(sl-1, l, ks[0], k, out, visited)
+		if ks := r.index[bsrKey{sl - 1, l, k, rc}]; len(ks) > 0 {
+			r.collectElem(sl-1, l, ks[0], k, rc, out, visited)
 		}
 	}
-	r.collectChild(prod[si.dot-1], k, rr, out, visited)
+	r.collectChild(prod[si.dot-1], k, rr, childRC(si.nt, prod[si.dot-1], rc), out, visited)
 }
 
-func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[nodeID]bool) {
+func (r *Result) collectChild(s qSym, a, b, rc int, out *[]*ParseTree, visited map[nodeID]bool) {
 	if s.kind != kNT {
 		if s.kind == kEps {
 			return
@@ -845,19 +868,19 @@ func (r *Result) collectChild(s qSym, a, b int, out *[]*ParseTree, visited map[n
 		*out = append(*out, &ParseTree{Start: a, End: b})
 		return
 	}
-	id := nodeID{sl: -1, nt: s.nt, l: a, r: b}
+	id := nodeID{sl: -1, nt: s.nt, l: a, r: b, rc: rc}
 	if visited[id] {
 		return
 	}
 	visited[id] = true
 	for _, sl := range ntComplete[s.nt] {
-		if ks := r.index[bsrKey{sl, a, b}]; len(ks) > 0 {
+		if ks := r.index[bsrKey{sl, a, b, rc}]; len(ks) > 0 {
 			if qNTs[s.nt].isRule {
 				var kids []*ParseTree
-				r.collectElem(sl, a, ks[0], b, &kids, visited)
+				r.collectElem(sl, a, ks[0], b, rc, &kids, visited)
 				*out = append(*out, &ParseTree{Rule: qNTs[s.nt].ruleName, Start: a, End: b, Children: kids})
 			} else {
-				r.collectElem(sl, a, ks[0], b, out, visited)
+				r.collectElem(sl, a, ks[0], b, rc, out, visited)
 			}
 			visited[id] = false
 			return
diff --git a/sppf.go b/sppf.go
index d4587ee..e60476e 100644
--- a/sppf.go
+++ b/sppf.go
@@ -323,12 +323,13 @@ type gllParser struct {
 }
 
 // nodeKey interns SPPF nodes without allocating strings. Distinct kinds never
-// collide: symbol nodes key on (kind,nt,start,end); intermediate nodes on
-// (kind,L,start,end); terminal nodes on (kind,start,end).
+// collide: symbol nodes key on (kind,nt,rc,start,end); intermediate nodes on
+// (kind,L,rc,start,end); terminal nodes on (kind,start,end).
 type nodeKey struct {
 	kind       gnodeKind
 	nt         int
 	L          slot
+	rc         int // count of a counted repetition, whose bounds constrain what is below
 	start, end int
 }
 
@@ -364,7 +365,7 @@ func (p *gllParser) create(L slot, u *gssNode, i int, w *gnode, rc int) *gssNode
 		v.edgeSet[e] = true
 		v.edges = append(v.edges, e)
 		for z := range p.popped[v] {
-			y := p.getNodeP(L, w, z)
+			y := p.getNodeP(L, w, z, rc)
 			p.add(L, u, z.End, y, rc)
 		}
 	}
@@ -380,7 +381,7 @@ func (p *gllParser) pop(u *gssNode, i int, z *gnode) {
 	}
 	p.popped[u][z] = true
 	for _, e := range u.edges {
-		y := p.getNodeP(u.ret, e.w, z)
+		y := p.getNodeP(u.ret, e.w, z, u.rc)
 		p.add(u.ret, e.to, i, y, u.rc)
 	}
 }
@@ -401,8 +402,9 @@ func (p *gllParser) getNodeT(start, end int) *gnode {
 	return p.findNode(nodeKey{kind: gTerm, nt: -1, start: start, end: end})
 }
 
-// getNodeP combines left node w (may be nil == $) and right node z under slot L.
-func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
+// getNodeP combines left node w (may be nil == $) and right node z under slot L,
+// reached with repetition count rc.
+func (p *gllParser) getNodeP(L slot, w, z *gnode, rc int) *gnode {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	betaEmpty := L.dot == len(prod)
 	if L.dot == 1 && !betaEmpty {
@@ -414,9 +416,9 @@ func (p *gllParser) getNodeP(L slot, w, z *gnode) *gnode {
 	}
 	var k nodeKey
 	if betaEmpty {
-		k = nodeKey{kind: gSymbol, nt: L.nt, start: start, end: z.End}
+		k = nodeKey{kind: gSymbol, nt: L.nt, rc: rc, start: start, end: z.End}
 	} else {
-		k = nodeKey{kind: gInter, nt: -1, L: L, start: start, end: z.End}
+		k = nodeKey{kind: gInter, nt: -1, L: L, rc: rc, start: start, end: z.End}
 	}
 	y := p.findNode(k)
 	if w != nil {
@@ -549,7 +551,7 @@ func (p *gllParser) process(d descriptor) {
 		}
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
-		w = p.getNodeP(next, w, cR)
+		w = p.getNodeP(next, w, cR, rc)
 		i = j
 		L = next
 	}
-- 
2.43.0


From bcd06c8de7a0d99190bc8b314da111a020e26bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 08/34] fix: generate compilable parsers for elements that
 never match

A prose-val or a series with a non-Unicode value left the match position
undeclared in the generated code, and a call to a nonterminal without usable
alternates (an undefined rule, 0"a", 3*2"a") left a variable unused.
---
 codegen.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/codegen.go b/codegen.go
index 664bbf0..4bfcfb2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -170,6 +170,7 @@ func (c *codegen) emitProcess(b *strings.Builder) {
 
 func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
 	fmt.Fprintf(b, "\t\t\tv := p.create(%d, u, i, rc)\n", retID)
+	b.WriteString("\t\t\t_ = v // unused when the callee derives nothing\n")
 	ci := c.sg.nts[callee]
 	if ci.isRep {
 		if callee == s.nt {
@@ -208,14 +209,17 @@ func (c *codegen) emitTerminal(b *strings.Builder, sym ssym, nextID int) {
 		fmt.Fprintf(b, "\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 		return
 	}
-	c.emitMatch(b, sym) // sets j or returns on failure
+	if !c.emitMatch(b, sym) { // sets j or returns on failure
+		return
+	}
 	fmt.Fprintf(b, "\t\t\tp.record(%d, u.pos, i, j, rc)\n", nextID)
 	fmt.Fprintf(b, "\t\t\ti = j\n\t\t\tL = %d\n\t\t\tcontinue\n", nextID)
 }
 
 // emitMatch emits inline code setting j to the end index on success or return on
-// failure.
-func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
+// failure. It reports false when the terminal can never match, in which case the
+// emitted code returns unconditionally.
+func (c *codegen) emitMatch(b *strings.Builder, s ssym) bool {
 	switch v := s.term.(type) {
 	case ElemCharVal:
 		c.emitCharVal(b, v)
@@ -230,13 +234,16 @@ func (c *codegen) emitMatch(b *strings.Builder, s ssym) {
 			fmt.Fprintf(b, "\t\t\tif rv < %d || rv > %d {\n\t\t\t\treturn\n\t\t\t}\n", lo, hi)
 			b.WriteString("\t\t\tj := i + rs\n")
 		case StatSeries:
-			c.emitSeries(b, v)
+			return c.emitSeries(b, v)
 		default:
 			b.WriteString("\t\t\treturn\n")
+			return false
 		}
 	default: // prose-val: never matches
 		b.WriteString("\t\t\treturn\n")
+		return false
 	}
+	return true
 }
 
 func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
@@ -276,19 +283,20 @@ func (c *codegen) emitCharVal(b *strings.Builder, v ElemCharVal) {
 	}
 }
 
-func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) {
+func (c *codegen) emitSeries(b *strings.Builder, v ElemNumVal) bool {
 	var sb strings.Builder
 	for _, e := range v.Elems {
 		r := numvalToRune(e, v.Base)
 		if !utf8.ValidRune(r) {
 			b.WriteString("\t\t\treturn // series contains a non-Unicode value\n")
-			return
+			return false
 		}
 		sb.WriteRune(r)
 	}
 	idx := c.seriesVar([]byte(sb.String()))
 	fmt.Fprintf(b, "\t\t\tif i+len(series%d) > len(p.input) || !bytesEqual(p.input[i:i+len(series%d)], series%d) {\n\t\t\t\treturn\n\t\t\t}\n", idx, idx, idx)
 	fmt.Fprintf(b, "\t\t\tj := i + len(series%d)\n", idx)
+	return true
 }
 
 func (c *codegen) seriesVar(bs []byte) int {
-- 
2.43.0


From 4f83fcbe32f984f490f6e397a362c063ca1b7479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:19 +0000
Subject: [PATCH 09/34] fix: report ErrTooLarge when a generated parser gives
 up on its last step

The abort flag was only looked at before taking the next descriptor, so a budget
exhausted by the very last one returned an incomplete result as a success.
---
 codegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen.go b/codegen.go
index 4bfcfb2..45f81b7 100644
--- a/codegen.go
+++ b/codegen.go
@@ -916,6 +916,9 @@ func Parse(input []byte) (*Result, error) {
 		p.work = p.work[:len(p.work)-1]
 		p.process(d)
 	}
+	if p.aborted {
+		return nil, ErrTooLarge
+	}
 	return &Result{input: input, set: p.set, n: len(input)}, nil
 }
 `
-- 
2.43.0


From 50e9c32d42c300e0bc0f028122fae7813c0e2014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:29 +0000
Subject: [PATCH 10/34] fix: do not charge the element budget for an element
 already recorded

ParseBSR and generated parsers gave up on a parse whose element set exactly fits
the budget when an element of it was derived again.
---
 bsr.go     | 5 +++--
 codegen.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bsr.go b/bsr.go
index 0d541c3..8c72739 100644
--- a/bsr.go
+++ b/bsr.go
@@ -95,11 +95,12 @@ func (p *bsrParser) gssNodeFor(ret slot, pos, rc int) *bsrGNode {
 func (p *bsrParser) record(L slot, l, k, r, rc int) {
 	prod := p.sg.nts[L.nt].alts[L.alt]
 	if L.dot >= 2 || L.dot == len(prod) {
-		if p.maxElems > 0 && len(p.set) >= p.maxElems {
+		e := bsrElem{L, l, k, r, rc}
+		if p.maxElems > 0 && !p.set[e] && len(p.set) >= p.maxElems {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r, rc}] = true
+		p.set[e] = true
 	}
 }
 
diff --git a/codegen.go b/codegen.go
index 45f81b7..7b5ec0f 100644
--- a/codegen.go
+++ b/codegen.go
@@ -578,11 +578,12 @@ func (p *parser) gssNodeFor(ret, pos, rc int) *gnode {
 func (p *parser) record(L, l, k, r, rc int) {
 	si := slotInfo[L]
 	if si.dot >= 2 || si.dot == si.plen {
-		if MaxElements > 0 && len(p.set) >= MaxElements {
+		e := bsrElem{L, l, k, r, rc}
+		if MaxElements > 0 && !p.set[e] && len(p.set) >= MaxElements {
 			p.aborted = true
 			return
 		}
-		p.set[bsrElem{L, l, k, r, rc}] = true
+		p.set[e] = true
 	}
 }
 
-- 
2.43.0


From 3971b19735d1bd2123f44c031fba2c9b0160c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:39 +0000
Subject: [PATCH 11/34] fix: generate and expand only characters out of num-val
 ranges

Surrogates are not characters, so a range holding some (%xD000-E000) produced
U+FFFD in Generate, ASTGenerator, the transition-graph reader and generator, and a
lone one (%xD800-D800) matched U+FFFD as a regex. A num-val matching no text at all
was given a node in the transition graph, or lost in cloning it such that the
graph accepted the empty string instead (2(%x7A-61 "b")).
---
 ast.go              | 15 ++++---------
 fuzz.go             | 25 ++++++++++------------
 generate.go         | 14 +++++-------
 regex.go            |  6 +++---
 transition_graph.go | 46 ++++++++++++++++++---------------------
 utils.go            | 52 +++++++++++++++++++++++++++++++++++++++++++++
 6 files changed, 96 insertions(+), 62 deletions(-)

diff --git a/ast.go b/ast.go
index 5b5adc6..c0ebc70 100644
--- a/ast.go
+++ b/ast.go
@@ -263,19 +263,12 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 				}
 			}
 		case StatRange:
-			min, max := numvalToRune(e.Elems[0], e.Base), numvalToRune(e.Elems[1], e.Base)
-			// Emit within the representable (Unicode) subset of the range.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
-				break // nothing representable to emit
-			}
-			span := int(max-min) + 1
+			// Emit within the characters of the range.
+			min, span := scalarRange(numvalToInt32(e.Elems[0], e.Base), numvalToInt32(e.Elems[1], e.Base))
 			if span < 1 {
-				span = 1
+				break // nothing representable to emit
 			}
-			*out = append(*out, []byte(string(min+rune(src.intn(span))))...)
+			*out = append(*out, []byte(string(scalarAt(min, int32(src.intn(int(span))))))...)
 		}
 
 	case ElemProseVal:
diff --git a/fuzz.go b/fuzz.go
index e8d79ff..17f2c0d 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -627,30 +627,27 @@ func nodeEmissions(n *Node) ([]emission, bool) {
 			}
 			return []emission{e}, true
 		case StatRange:
-			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// Clamp to the Unicode range first: otherwise an out-of-range bound
-			// near MaxInt32 overflows the int32 count below, bypasses the cap
-			// guard, and turns the enumeration loop into a DoS. A range wholly
-			// above U+10FFFF emits nothing.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
+			// Only count the characters of the range: otherwise an out-of-range
+			// bound near MaxInt32 overflows the int32 count below, bypasses the cap
+			// guard, and turns the enumeration loop into a DoS. A range without any
+			// emits nothing.
+			min, count := scalarRange(numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base))
+			if count == 0 {
 				return nil, false
 			}
-			if max <= 0x7f { // ASCII: a single one-octet emission
+			if min+count-1 <= 0x7f { // ASCII: a single one-octet emission
 				var s octetSet
-				for b := min; b <= max && b <= 0x7f; b++ { // explicit ASCII bound for the conversion
+				for b := min; b < min+count; b++ {
 					s.add(byte(b))
 				}
 				return []emission{{pos: []octetSet{s}}}, true
 			}
-			if max-min+1 > expectedNextRangeCap {
+			if count > expectedNextRangeCap {
 				return nil, false
 			}
 			byLen := map[int]*emission{}
-			for r := min; r <= max; r++ {
-				bs := []byte(string(rune(r)))
+			for i := int32(0); i < count; i++ {
+				bs := []byte(string(scalarAt(min, i)))
 				e := byLen[len(bs)]
 				if e == nil {
 					e = &emission{pos: make([]octetSet, len(bs))}
diff --git a/generate.go b/generate.go
index 179db93..4dddc03 100644
--- a/generate.go
+++ b/generate.go
@@ -70,15 +70,11 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 			case ElemNumVal:
 				switch elem.Status {
 				case StatRange:
-					min, max := numvalToRune(elem.Elems[0], elem.Base), numvalToRune(elem.Elems[1], elem.Base)
-					// Generation emits UTF-8 text, so clamp to the representable
-					// (Unicode) subset; a range wholly above U+10FFFF (or with
-					// max < min) yields no character.
-					if max > utf8.MaxRune {
-						max = utf8.MaxRune
-					}
-					if min <= utf8.MaxRune && min <= max {
-						r := min + (rune(rand.Int63()&0x0F) % (max - min + 1)) // mask 0x0F to keep the 32-bit part (rune size)
+					// Generation emits UTF-8 text, so stick to the characters of the
+					// range; one wholly above U+10FFFF (or with max < min) yields none.
+					min, n := scalarRange(numvalToInt32(elem.Elems[0], elem.Base), numvalToInt32(elem.Elems[1], elem.Base))
+					if n > 0 {
+						r := scalarAt(min, int32(rand.Int63()&0x0F)%n) // mask 0x0F to keep the 32-bit part (rune size)
 						appendPtr(out, r)
 					}
 
diff --git a/regex.go b/regex.go
index b3d49b2..800adf8 100644
--- a/regex.go
+++ b/regex.go
@@ -171,10 +171,10 @@ func (b *reBuilder) elem(e ElemItf) reNode {
 			lo := numvalToRune(v.Elems[0], v.Base)
 			hi := min(
 				// RE2 patterns are Unicode (max U+10FFFF). A range straddling that
-				// ceiling is clamped to its representable subset; one wholly above it
-				// matches nothing -- mirroring the recognizer.
+				// ceiling is clamped to its representable subset; one holding no
+				// character matches nothing -- mirroring the recognizer.
 				numvalToRune(v.Elems[1], v.Base), utf8.MaxRune)
-			if lo > utf8.MaxRune || lo > hi {
+			if !numvalMatchable(v) {
 				return reNeverV
 			}
 			return &reClass{ranges: []reRange{{lo, hi}}}
diff --git a/transition_graph.go b/transition_graph.go
index 12b74d8..aa93c55 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -5,7 +5,6 @@ import (
 	"slices"
 	"sort"
 	"strings"
-	"unicode/utf8"
 
 	uuid "github.com/hashicorp/go-uuid"
 )
@@ -921,17 +920,13 @@ func nodeEmit(node *Node, tpos int32) (prod []byte, vtotal int32) {
 			}
 			return prod, 1
 		case StatRange:
-			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// The graph operates over runes; clamp to the Unicode range so an
-			// out-of-range bound cannot overflow the int32 count below.
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
+			// The graph operates over runes, so only the characters of the range
+			// count.
+			min, n := scalarRange(numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base))
+			if n == 0 {
 				return nil, 1 // no representable character in this range
 			}
-			r := rune(min + tpos)
-			return []byte(string(r)), max - min + 1
+			return []byte(string(scalarAt(min, tpos))), n
 		}
 	}
 	return nil, 1
@@ -1225,7 +1220,10 @@ func cloneTransitionGraph(i, o []*Node) (entrypoints []*Node, endpoints []*Node)
 			endpoints = append(endpoints, emptyNode)
 			continue
 		}
-		endpoints = append(endpoints, originToNewNodes[vo.ID].cloned)
+		// An endpoint may have no way in (what precedes it matches no text).
+		if cn, ok := originToNewNodes[vo.ID]; ok {
+			endpoints = append(endpoints, cn.cloned)
+		}
 	}
 	return
 }
@@ -1343,6 +1341,11 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 		return
 
 	case ElemNumVal:
+		// A num-val that matches no text (e.g. a range of surrogates, or wholly
+		// above U+10FFFF) contributes no node.
+		if !numvalMatchable(v) {
+			return
+		}
 		if !m.options.deflateNumVals {
 			if err := m.reserve(1); err != nil {
 				return nil, nil, err
@@ -1354,25 +1357,18 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 		}
 		switch v.Status {
 		case StatRange:
-			min, max := numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base)
-			// One node is enumerated per rune; clamp to the Unicode range so an
-			// out-of-range bound cannot overflow the count (int32) and bypass the
-			// node budget, which would turn this loop into a DoS. A range wholly
-			// above U+10FFFF contributes no node (it matches nothing).
-			if max > utf8.MaxRune {
-				max = utf8.MaxRune
-			}
-			if min > utf8.MaxRune || min > max {
-				return
-			}
-			if err := m.reserve(int(max - min + 1)); err != nil {
+			// One node is enumerated per character, so that an out-of-range bound
+			// cannot overflow the count (int32) and bypass the node budget, which
+			// would turn this loop into a DoS.
+			min, count := scalarRange(numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base))
+			if err := m.reserve(int(count)); err != nil {
 				return nil, nil, err
 			}
-			for i := min; i <= max; i++ {
+			for i := int32(0); i < count; i++ {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
-					Elems:  []string{int32ToNumval(i, v.Base)},
+					Elems:  []string{int32ToNumval(scalarAt(min, i), v.Base)},
 				})
 				entrypoints = append(entrypoints, n)
 				endpoints = append(endpoints, n)
diff --git a/utils.go b/utils.go
index dcc9e6d..5c2a323 100644
--- a/utils.go
+++ b/utils.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // int32ToNumval converts an integer value into its numeric-string representation
@@ -75,6 +76,57 @@ func numvalToRune(str, base string) rune {
 	return rune(numvalToInt32(str, base))
 }
 
+// Surrogates are code points, but not characters: no UTF-8 input holds one.
+const (
+	surrogateMin = 0xD800
+	surrogateMax = 0xDFFF
+)
+
+// scalarRange restricts the range [min, max] to the characters (Unicode scalar
+// values) it holds, returning the first one and how many they are.
+func scalarRange(min, max int32) (first, n int32) {
+	if max > utf8.MaxRune {
+		max = utf8.MaxRune
+	}
+	if min >= surrogateMin && min <= surrogateMax {
+		min = surrogateMax + 1
+	}
+	if max >= surrogateMin && max <= surrogateMax {
+		max = surrogateMin - 1
+	}
+	if min > max {
+		return min, 0
+	}
+	n = max - min + 1
+	if min < surrogateMin && max > surrogateMax {
+		n -= surrogateMax - surrogateMin + 1
+	}
+	return min, n
+}
+
+// scalarAt returns the i-th character of the range starting at first.
+func scalarAt(first, i int32) rune {
+	r := first + i
+	if first < surrogateMin && r >= surrogateMin {
+		r += surrogateMax - surrogateMin + 1
+	}
+	return r
+}
+
+// numvalMatchable reports whether a num-val matches at least some text.
+func numvalMatchable(v ElemNumVal) bool {
+	if v.Status == StatRange {
+		_, n := scalarRange(numvalToInt32(v.Elems[0], v.Base), numvalToInt32(v.Elems[1], v.Base))
+		return n > 0
+	}
+	for _, e := range v.Elems {
+		if !utf8.ValidRune(numvalToRune(e, v.Base)) {
+			return false
+		}
+	}
+	return true
+}
+
 // checkBounds enforces the Unicode-range invariant (value <= U+10FFFF). It is
 // the strict-validation path used by SemvalABNF: with validation enabled (the
 // default, and the common textual case) a num-val outside the Unicode range is
-- 
2.43.0


From e1f01bd107da76ea7fc1c74cc00d9d9b325a397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:50 +0000
Subject: [PATCH 12/34] fix: ExpectedNext must not mix the octets of different
 characters

A multi-byte num-val range (%xE9-1F0) was flattened into independent sets per octet
position, so octets of distinct characters were combined into ones outside of the
range, which ExpectedNext then reported as viable, or even as accepted.
---
 fuzz.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index 17f2c0d..fa1201b 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -1,6 +1,7 @@
 package goabnf
 
 import (
+	"bytes"
 	"fmt"
 	"math/rand"
 	"unicode/utf8"
@@ -556,8 +557,9 @@ func (s octetSet) bytes() []byte {
 }
 
 // emission is one fixed-length alternative of a node's output: pos[j] is the set
-// of octets the node may emit at byte offset j. A node usually has exactly one
-// emission; a num-val range that spans several UTF-8 lengths has one per length.
+// of octets the node may emit at byte offset j, independently of the others. A
+// node usually has exactly one emission; a num-val range of multi-byte characters
+// has one per leading octets.
 type emission struct {
 	pos []octetSet
 }
@@ -645,21 +647,23 @@ func nodeEmissions(n *Node) ([]emission, bool) {
 			if count > expectedNextRangeCap {
 				return nil, false
 			}
-			byLen := map[int]*emission{}
+			// The octets of a multi-byte character depend on each other (C3 then
+			// A9-BF, but C4 then 80-BF), so only characters that differ by their
+			// last octet share an emission. They are consecutive.
+			var out []emission
+			prev := []byte(nil)
 			for i := int32(0); i < count; i++ {
 				bs := []byte(string(scalarAt(min, i)))
-				e := byLen[len(bs)]
-				if e == nil {
-					e = &emission{pos: make([]octetSet, len(bs))}
-					byLen[len(bs)] = e
-				}
-				for j, b := range bs {
-					e.pos[j].add(b)
+				last := len(bs) - 1
+				if i == 0 || len(prev) != len(bs) || !bytes.Equal(prev[:last], bs[:last]) {
+					e := emission{pos: make([]octetSet, len(bs))}
+					for j, b := range bs[:last] {
+						e.pos[j].add(b)
+					}
+					out = append(out, e)
 				}
-			}
-			out := make([]emission, 0, len(byLen))
-			for _, e := range byLen {
-				out = append(out, *e)
+				out[len(out)-1].pos[last].add(bs[last])
+				prev = bs
 			}
 			return out, true
 		}
-- 
2.43.0


From 3c3d9575179fcce500e11f4552d96b7d6a21aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:01 +0000
Subject: [PATCH 13/34] fix: ExpectedNext must not offer octets that lead to no
 word

An alternative that can not be completed ("b" %x7A-61 / "c") was followed
nevertheless, so an octet that begins no word was reported as legal.
---
 fuzz.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fuzz.go b/fuzz.go
index fa1201b..f41da6b 100644
--- a/fuzz.go
+++ b/fuzz.go
@@ -702,7 +702,7 @@ func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok b
 		return true
 	}
 	for _, e := range g.tg.Entrypoints {
-		if e == emptyNode {
+		if e == emptyNode || !g.canReach[tgNodeID(e)] {
 			continue
 		}
 		if !start(e) {
@@ -733,7 +733,7 @@ func (g *Generator) ExpectedNext(prefix []byte) (next []byte, accepts bool, ok b
 					lastCompletedEndpoint = true
 				}
 				for _, m := range s.n.Nexts {
-					if m == emptyNode {
+					if m == emptyNode || !g.canReach[tgNodeID(m)] {
 						continue
 					}
 					ems2, o := g.emissions(m)
-- 
2.43.0


From 92d86a021efd4eba92094694c0e8a314349634f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:27 +0000
Subject: [PATCH 14/34] fix: deflate a num-val series into a sequence, not into
 alternatives

With WithDeflateNumVals, %x61.62 became a choice between a and b, so the transition
graph accepted (and generated) words outside of the language and none of it.
---
 transition_graph.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transition_graph.go b/transition_graph.go
index aa93c55..7367f75 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1378,15 +1378,22 @@ func (m *tgmachine) elemGraph(elem ElemItf) (entrypoints []*Node, endpoints []*N
 			if err := m.reserve(len(v.Elems)); err != nil {
 				return nil, nil, err
 			}
+			// A series is a sequence: its values follow each other.
+			var prev *Node
 			for _, s := range v.Elems {
 				n := newNode(ElemNumVal{
 					Base:   v.Base,
 					Status: StatSeries,
 					Elems:  []string{s},
 				})
-				entrypoints = append(entrypoints, n)
-				endpoints = append(endpoints, n)
+				if prev == nil {
+					entrypoints = append(entrypoints, n)
+				} else {
+					prev.Nexts = append(prev.Nexts, n)
+				}
+				prev = n
 			}
+			endpoints = append(endpoints, prev)
 		}
 		return
 
-- 
2.43.0


From db9add7500b2ff974a0e9d0c7f8fa602543ae0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:37 +0000
Subject: [PATCH 15/34] fix: a reference to an undefined rule matches nothing
 in a regex

It was rendered as the empty string, so the regex accepted inputs the grammar
rejects (a = "x" b without any b, on "x").
---
 regex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regex.go b/regex.go
index 800adf8..e013cc1 100644
--- a/regex.go
+++ b/regex.go
@@ -134,7 +134,7 @@ func (b *reBuilder) rule(name string) reNode {
 	}
 	r := GetRule(name, b.g.Rulemap)
 	if r == nil {
-		return reEmptyV
+		return reNeverV // undefined rules derive nothing
 	}
 	n := b.alt(r.Alternation)
 	b.memo[key] = n
-- 
2.43.0


From 3f83f35934276668f19c5392843702d0f0783a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:48 +0000
Subject: [PATCH 16/34] fix: a repetition with max < min matches nothing in a
 regex

It was rendered as a quantifier that does not compile, or dropped.
---
 regex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regex.go b/regex.go
index e013cc1..74fea9f 100644
--- a/regex.go
+++ b/regex.go
@@ -308,6 +308,8 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 	case *reRepeat:
 		sub := simplify(v.sub, memo)
 		switch {
+		case v.max != inf && v.max < v.min:
+			res = reNeverV // no count satisfies both bounds
 		case isNever(sub):
 			// Zero occurrences are allowed iff min == 0 (then it matches empty);
 			// otherwise the repetition is itself un-matchable.
-- 
2.43.0


From 4bfa390137aaee1798561a716ee6ab8579f6b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:18 +0000
Subject: [PATCH 17/34] fix: read the defined-as operator apart from the
 comments around it

A rule definition was taken for an incremental alternative when a comment between
its name and its elements held "=/".
---
 grammar.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 762813a..d29d4a6 100644
--- a/grammar.go
+++ b/grammar.go
@@ -201,9 +201,11 @@ func (e *feval) rule(t *ParseTree) (*Rule, string, error) {
 	if nameNode == nil || defNode == nil || elemsNode == nil {
 		return nil, "", ErrNoSolutionFound
 	}
+	// The operator is the terminal of defined-as; what surrounds it (c-wsp) are
+	// rules, possibly comments holding any text.
 	definedAs := "="
-	if strings.Contains(e.span(defNode), "=/") {
-		definedAs = "=/"
+	if op := ptFirst(defNode, ""); op != nil {
+		definedAs = e.span(op)
 	}
 	altNode := ptFirst(elemsNode, "alternation")
 	if altNode == nil {
-- 
2.43.0


From e440905e44bb658251cfa5fc069af9b6f51018b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:29 +0000
Subject: [PATCH 18/34] fix: extending a core rule must not modify it for every
 other grammar

With WithRedefineCoreRules(true), ALPHA =/ ... appended to the shared core rule
itself, hence changed the ABNF parser and all grammars of the process.
---
 grammar.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index d29d4a6..917f041 100644
--- a/grammar.go
+++ b/grammar.go
@@ -187,8 +187,13 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 			if rule == nil {
 				return nil, &ErrRuleNotFound{Rulename: rl.Name}
 			}
-			rule.Alternation.Concatenations = append(rule.Alternation.Concatenations, rl.Alternation.Concatenations...)
-			mp[rule.Name] = rule
+			// Extend a copy, as the rule could be a core rule shared by all grammars.
+			mp[rule.Name] = &Rule{
+				Name: rule.Name,
+				Alternation: Alternation{
+					Concatenations: append(slices.Clone(rule.Alternation.Concatenations), rl.Alternation.Concatenations...),
+				},
+			}
 		}
 	}
 	return &Grammar{Rulemap: mp}, nil
-- 
2.43.0


From f89b4590841445a4ad22fd143173095e73c41758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:39 +0000
Subject: [PATCH 19/34] fix: refuse to define a core rule several times in a
 grammar

With WithRedefineCoreRules(true) the duplicate check was skipped, and definitions
whose names differ by case were kept both, so which one was used depended on the
map iteration order.
---
 grammar.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 917f041..8205349 100644
--- a/grammar.go
+++ b/grammar.go
@@ -174,7 +174,8 @@ func (e *feval) rulelist(t *ParseTree) (*Grammar, error) {
 				if !e.o.redefineCore {
 					return nil, &ErrCoreRuleModify{CoreRulename: rl.Name}
 				}
-			} else if GetRule(rl.Name, mp) != nil {
+			}
+			if getRuleIn(rl.Name, mp) != nil {
 				return nil, &ErrDuplicatedRule{Rulename: rl.Name}
 			}
 			mp[rl.Name] = rl
-- 
2.43.0


From 3be5827ed1562af9f236efa2e0943c1432019958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:04 +0000
Subject: [PATCH 20/34] fix: Generate must not divide by zero on a repetition
 minimum above repMax

17*"a" with the default maximum of 16 panicked, and higher minimums were generated
too few times.
---
 generate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generate.go b/generate.go
index 4dddc03..4bbe840 100644
--- a/generate.go
+++ b/generate.go
@@ -50,7 +50,8 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 	for _, rep := range cnt.Repetitions {
 		repmax := rep.Max
 		if repmax == inf {
-			repmax = options.repMax
+			// The minimum is mandatory, even above the configured maximum.
+			repmax = max(options.repMax, rep.Min)
 		}
 		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
 		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
-- 
2.43.0


From 1a6e1a154ee83170a62b4cd2a8ff78ead97df957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:34 +0000
Subject: [PATCH 21/34] fix: Generate must only pick what it can generate, and
 terminate

---
 generate.go | 127 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 116 insertions(+), 11 deletions(-)

diff --git a/generate.go b/generate.go
index 4bbe840..1fbd947 100644
--- a/generate.go
+++ b/generate.go
@@ -3,6 +3,7 @@ package goabnf
 import (
 	"errors"
 	"maps"
+	"math"
 	"math/rand"
 	"strings"
 	"unicode/utf8"
@@ -37,14 +38,39 @@ func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption)
 
 	// Generate actual content (rule exists, checked first)
 	rule := GetRule(rulename, g.Rulemap)
+	options.ranks = generateRanks(g)
+	if options.ranks.alt(rule.Alternation) == unrankable {
+		return nil, &ErrCyclicRule{
+			Rulename: rulename,
+		}
+	}
 	out := []byte{}
 	generateAlt(rand, g, &out, rule.Alternation, options)
 	return out, nil
 }
 
 func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, options *genOpts) {
-	// Select any possible path in the alternation
-	cnt := alt.Concatenations[int(rand.Int63())%len(alt.Concatenations)]
+	// Select any possible path in the alternation, among those that can be
+	// generated, or the shortest one once enough has been generated.
+	cnts := make([]Concatenation, 0, len(alt.Concatenations))
+	for _, cnt := range alt.Concatenations {
+		if options.ranks.concat(cnt) != unrankable {
+			cnts = append(cnts, cnt)
+		}
+	}
+	if len(cnts) == 0 {
+		return
+	}
+	cnt := cnts[0]
+	if options.over(len(*out)) {
+		for _, c := range cnts[1:] {
+			if options.ranks.concat(c) < options.ranks.concat(cnt) {
+				cnt = c
+			}
+		}
+	} else {
+		cnt = cnts[int(rand.Int63())%len(cnts)]
+	}
 
 	// Travel through all the repetitions
 	for _, rep := range cnt.Repetitions {
@@ -54,14 +80,17 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 			repmax = max(options.repMax, rep.Min)
 		}
 		torep := rep.Min + int(rand.Int63())%(repmax-rep.Min+1)
-		for i := 0; generateKeepGoing(i, torep, rep.Min, len(*out), options.threshold); i++ {
+		if options.ranks.elem(rep.Element) == unrankable {
+			torep = 0 // not mandatory, else would not have been selected
+		}
+		for i := 0; i < torep && !(i >= rep.Min && options.over(len(*out))); i++ {
+			options.steps++
 			switch elem := rep.Element.(type) {
 			case ElemRulename:
-				rule := GetRule(elem.Name, g.Rulemap)
-				generateAlt(rand, g, out, rule.Alternation, options)
+				generateAlt(rand, g, out, GetRule(elem.Name, g.Rulemap).Alternation, options)
 
 			case ElemOption:
-				if (rand.Int63() % 2) == 0 {
+				if (rand.Int63()%2) == 0 && !options.over(len(*out)) {
 					generateAlt(rand, g, out, elem.Alternation, options)
 				}
 
@@ -110,12 +139,80 @@ func appendPtr(slc *[]byte, v ...rune) {
 	*slc = b
 }
 
-func generateKeepGoing(i, torep, minrep, lenout, threshold int) bool {
-	// If can do no run and reached threshold, skip
-	if i == 0 && minrep == 0 && lenout >= threshold {
-		return false
+// generateMaxSteps bounds the elements generated before heading to the end, such
+// that a recursive rule can't keep growing without producing anything.
+const generateMaxSteps = 1 << 16
+
+// over returns whether enough was generated, thus should only complete what is
+// mandatory.
+func (opts *genOpts) over(lenout int) bool {
+	return lenout >= opts.threshold || opts.steps >= generateMaxSteps
+}
+
+// unrankable is the rank of what can't be generated (prose-val, num-val matching
+// no text, undefined rule, or rule that never ends).
+const unrankable = math.MaxInt
+
+// ranks holds for each rule the minimum nesting of rules it takes to generate it.
+// Rules that can't be generated are absent.
+type ranks map[string]int
+
+func generateRanks(g *Grammar) ranks {
+	rk := ranks{}
+	for changed := true; changed; {
+		changed = false
+		for _, rulemap := range []map[string]*Rule{g.Rulemap, coreRules} {
+			for name := range rulemap {
+				key := strings.ToLower(name)
+				r := rk.alt(GetRule(name, g.Rulemap).Alternation)
+				if prev, ok := rk[key]; r != unrankable && (!ok || r < prev) {
+					rk[key] = r
+					changed = true
+				}
+			}
+		}
+	}
+	return rk
+}
+
+func (rk ranks) alt(alt Alternation) int {
+	r := unrankable
+	for _, concat := range alt.Concatenations {
+		r = min(r, rk.concat(concat))
+	}
+	return r
+}
+
+func (rk ranks) concat(concat Concatenation) int {
+	r := 0
+	for _, rep := range concat.Repetitions {
+		if rep.Max != inf && rep.Max < rep.Min {
+			return unrankable
+		}
+		if rep.Min > 0 {
+			r = max(r, rk.elem(rep.Element))
+		}
+	}
+	return r
+}
+
+func (rk ranks) elem(elem ElemItf) int {
+	switch v := elem.(type) {
+	case ElemRulename:
+		if r, ok := rk[strings.ToLower(v.Name)]; ok {
+			return r + 1
+		}
+		return unrankable
+	case ElemGroup:
+		return rk.alt(v.Alternation)
+	case ElemNumVal:
+		if !numvalMatchable(v) {
+			return unrankable
+		}
+	case ElemProseVal:
+		return unrankable
 	}
-	return i < torep
+	return 0
 }
 
 // GenerateOption is an option for the *Grammar.Generate method.
@@ -126,6 +223,9 @@ type GenerateOption interface {
 type genOpts struct {
 	repMax    int
 	threshold int
+
+	ranks ranks // what can be generated
+	steps int   // elements generated so far
 }
 
 type repMaxOption int
@@ -217,6 +317,11 @@ func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, co
 				}
 			}
 			rule := GetRule(elem.Name, g.Rulemap)
+			if rule == nil {
+				return &ErrRuleNotFound{
+					Rulename: elem.Name,
+				}
+			}
 			scopeRules[elem.Name] = struct{}{}
 			if err := checkCanGenerateSafelyAlt(g, scopeRules, rule.Alternation); err != nil {
 				if err, ok := err.(*ErrCyclicRule); ok {
-- 
2.43.0


From 7b3323ff8881dc845d016448440f4dfd88d938c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:21 +0000
Subject: [PATCH 22/34] fix: ASTGenerator must only expand productive branches,
 within a steps budget

---
 ast.go | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/ast.go b/ast.go
index c0ebc70..f35e483 100644
--- a/ast.go
+++ b/ast.go
@@ -22,6 +22,10 @@ import (
 
 const astUnbounded = 1 << 30 // "infinite" min-length sentinel (non-productive)
 
+// astMaxSteps bounds the elements expanded before steering to terminate: depth
+// alone does not, as a rule may refer to itself several times per level.
+const astMaxSteps = 1 << 16
+
 // ASTGenerator generates strings admitted by a (possibly recursive) grammar
 // rule, directly from the AST.
 type ASTGenerator struct {
@@ -33,6 +37,7 @@ type ASTGenerator struct {
 	maxRepeat int // cap for unbounded ("*") repetitions
 
 	minCost map[string]int // rule name -> minimum expansion cost (productivity)
+	steps   int            // elements expanded so far, by a single generation
 }
 
 // ASTGenOption configures an ASTGenerator.
@@ -179,18 +184,25 @@ func (ag *ASTGenerator) GenerateRand(r *rand.Rand) []byte {
 
 func (ag *ASTGenerator) walk(src source) []byte {
 	out := []byte{}
-	ag.genAlt(src, &out, ag.start.Alternation, 0)
+	run := *ag // keeps the steps count out of the shared generator
+	run.genAlt(src, &out, ag.start.Alternation, 0)
 	return out
 }
 
 // over reports whether we should stop taking expansions for their own sake and
 // steer toward the nearest terminal string.
 func (ag *ASTGenerator) over(out *[]byte, depth int) bool {
-	return depth >= ag.maxDepth || len(*out) >= ag.maxLen
+	return depth >= ag.maxDepth || len(*out) >= ag.maxLen || ag.steps >= astMaxSteps
 }
 
 func (ag *ASTGenerator) genAlt(src source, out *[]byte, alt Alternation, depth int) {
-	cs := alt.Concatenations
+	// Only consider the branches that derive a string.
+	cs := make([]Concatenation, 0, len(alt.Concatenations))
+	for _, c := range alt.Concatenations {
+		if ag.costConcat(c) < astUnbounded {
+			cs = append(cs, c)
+		}
+	}
 	if len(cs) == 0 {
 		return
 	}
@@ -216,13 +228,14 @@ func (ag *ASTGenerator) genRep(src source, out *[]byte, rep Repetition, depth in
 		hi = lo + ag.maxRepeat
 	}
 	n := lo
-	if !ag.over(out, depth) && hi > lo {
+	if !ag.over(out, depth) && hi > lo && ag.costElem(rep.Element) < astUnbounded {
 		n = lo + src.intn(hi-lo+1)
 	}
 	for i := 0; i < n; i++ {
+		ag.steps++
 		ag.genElem(src, out, rep.Element, depth)
-		// Stop optional extras once over length, but always emit the mandatory lo.
-		if i+1 >= lo && len(*out) >= ag.maxLen {
+		// Stop optional extras once over, but always emit the mandatory lo.
+		if i+1 >= lo && (len(*out) >= ag.maxLen || ag.steps >= astMaxSteps) {
 			break
 		}
 	}
@@ -239,7 +252,7 @@ func (ag *ASTGenerator) genElem(src source, out *[]byte, elem ElemItf, depth int
 		ag.genAlt(src, out, e.Alternation, depth)
 
 	case ElemOption:
-		if !ag.over(out, depth) && src.intn(2) == 1 {
+		if !ag.over(out, depth) && ag.costAlt(e.Alternation) < astUnbounded && src.intn(2) == 1 {
 			ag.genAlt(src, out, e.Alternation, depth)
 		}
 
@@ -306,6 +319,9 @@ func (ag *ASTGenerator) costAlt(alt Alternation) int {
 func (ag *ASTGenerator) costConcat(concat Concatenation) int {
 	total := 0
 	for _, rep := range concat.Repetitions {
+		if rep.Max != inf && rep.Max < rep.Min {
+			return astUnbounded // no count fits
+		}
 		total = addClamp(total, mulClamp(rep.Min, ag.costElem(rep.Element)))
 	}
 	return total
@@ -333,6 +349,9 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 	case ElemCharVal:
 		return len(string(e.Values))
 	case ElemNumVal:
+		if !numvalMatchable(e) {
+			return astUnbounded // matches no text
+		}
 		switch e.Status {
 		case StatSeries:
 			n := 0
@@ -344,7 +363,7 @@ func (ag *ASTGenerator) costElem(elem ElemItf) int {
 			return len(string(numvalToRune(e.Elems[0], e.Base)))
 		}
 	case ElemProseVal:
-		return 0
+		return astUnbounded // nothing mechanical to emit
 	}
 	return 0
 }
@@ -363,13 +382,10 @@ func mulClamp(n, c int) int {
 	if n == 0 {
 		return 0
 	}
-	if c >= astUnbounded {
+	if c >= astUnbounded || (c > 0 && n >= astUnbounded/c) {
 		return astUnbounded
 	}
-	if p := n * c; p >= 0 && p < astUnbounded {
-		return p
-	}
-	return astUnbounded
+	return n * c
 }
 
 func isASCIILetter(r rune) bool {
-- 
2.43.0


From 834a08eb476a63b9667cdba3a71a0f8bac763098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:53 +0000
Subject: [PATCH 23/34] fix: ParseError must locate trailing input after what
 was consumed

---
 sppf.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sppf.go b/sppf.go
index e60476e..de28735 100644
--- a/sppf.go
+++ b/sppf.go
@@ -549,6 +549,7 @@ func (p *gllParser) process(d descriptor) {
 			p.noteFail(i, s)
 			return
 		}
+		p.noteReach(j)
 		cR := p.getNodeT(i, j)
 		next := slot{L.nt, L.alt, L.dot + 1}
 		w = p.getNodeP(next, w, cR, rc)
@@ -562,11 +563,7 @@ func (p *gllParser) process(d descriptor) {
 // could have been consumed -- the classic "furthest-failure" position used to
 // report where parsing got stuck.
 func (p *gllParser) noteFail(i int, s ssym) {
-	if i > p.maxPos {
-		p.maxPos = i
-		p.expected = p.expected[:0]
-		p.expectedSeen = nil
-	}
+	p.noteReach(i)
 	if i != p.maxPos {
 		return
 	}
@@ -583,6 +580,16 @@ func (p *gllParser) noteFail(i int, s ssym) {
 	}
 }
 
+// noteReach records that the input was consumed up to offset i, which may be the
+// furthest one with nothing more that could be consumed there (trailing input).
+func (p *gllParser) noteReach(i int) {
+	if i > p.maxPos {
+		p.maxPos = i
+		p.expected = p.expected[:0]
+		p.expectedSeen = nil
+	}
+}
+
 // capRC returns the count after consuming one more element of a repetition R
 // currently at count rc. For an unbounded repetition it saturates at repMin
 // (once the minimum is met the exact count no longer matters), which keeps the
-- 
2.43.0


From f6e5e927c08e7055cd99a90005599f4340c11ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:01 +0000
Subject: [PATCH 24/34] fix: pap must honor an explicit false deflate flag

---
 cmd/pap/commands/transition_graph.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/pap/commands/transition_graph.go b/cmd/pap/commands/transition_graph.go
index 616d229..020e465 100644
--- a/cmd/pap/commands/transition_graph.go
+++ b/cmd/pap/commands/transition_graph.go
@@ -52,13 +52,13 @@ func transitionGraph(ctx *cli.Context) error {
 
 	// Build options
 	opts := []goabnf.TGOption{}
-	if ctx.IsSet("deflate-rules") {
+	if ctx.Bool("deflate-rules") {
 		opts = append(opts, goabnf.WithDeflateRules(true))
 	}
-	if ctx.IsSet("deflate-charvals") {
+	if ctx.Bool("deflate-charvals") {
 		opts = append(opts, goabnf.WithDeflateCharVals(true))
 	}
-	if ctx.IsSet("deflate-numvals") {
+	if ctx.Bool("deflate-numvals") {
 		opts = append(opts, goabnf.WithDeflateNumVals(true))
 	}
 	if ctx.IsSet("repetition-threshold") {
-- 
2.43.0


From a75f1ba14c94f60f0421eef03f6cd4545e558310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:17 +0000
Subject: [PATCH 25/34] fix: WithMaxSlots must allow as many nonterminals as
 its budget

---
 sppf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sppf.go b/sppf.go
index de28735..8f6419f 100644
--- a/sppf.go
+++ b/sppf.go
@@ -100,7 +100,7 @@ type lowerer struct {
 }
 
 func (c *lowerer) budgetExceeded() bool {
-	if c.max > 0 && len(c.sg.nts) >= c.max {
+	if c.max > 0 && len(c.sg.nts) > c.max {
 		c.over = true
 	}
 	return c.over
-- 
2.43.0


From 69eb51911cb1df820239874ba27d672302ddb798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:56 +0000
Subject: [PATCH 26/34] fix: extract the same tree out of a binary subtree set
 each time

---
 bsr.go     | 5 +++++
 codegen.go | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/bsr.go b/bsr.go
index 8c72739..e0e3003 100644
--- a/bsr.go
+++ b/bsr.go
@@ -2,6 +2,7 @@ package goabnf
 
 import (
 	"math/big"
+	"slices"
 	"unicode/utf8"
 )
 
@@ -287,6 +288,10 @@ func (f *BSRForest) buildIndex() {
 		k := bsrKey{e.slot, e.l, e.r, e.rc}
 		f.index[k] = append(f.index[k], e.k)
 	}
+	// The set is unordered: sort pivots such that Tree is deterministic.
+	for _, ks := range f.index {
+		slices.Sort(ks)
+	}
 }
 
 // startElems returns, for each production of the start rule, the pivots of the
diff --git a/codegen.go b/codegen.go
index 7b5ec0f..a44d3dd 100644
--- a/codegen.go
+++ b/codegen.go
@@ -134,7 +134,7 @@ func (c *codegen) scanUTF8() {
 }
 
 func (c *codegen) emitImports(b *strings.Builder) {
-	b.WriteString("import (\n\t\"errors\"\n\t\"math/big\"\n")
+	b.WriteString("import (\n\t\"errors\"\n\t\"math/big\"\n\t\"sort\"\n")
 	if c.usesUTF8 {
 		b.WriteString("\t\"unicode/utf8\"\n")
 	}
@@ -669,6 +669,10 @@ func (r *Result) buildIndex() {
 		bk := bsrKey{e.sl, e.l, e.r, e.rc}
 		r.index[bk] = append(r.index[bk], e.k)
 	}
+	// The set is unordered: sort pivots such that Tree is deterministic.
+	for _, ks := range r.index {
+		sort.Ints(ks)
+	}
 }
 
 // Valid reports whether the whole input is derivable by the root rule.
-- 
2.43.0


From 2bb97798e30a1a9708497c7a6f187257ccb0eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 27/34] fix: Generate must pick among all the characters of a
 num-val range

---
 generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate.go b/generate.go
index 1fbd947..1da1dfe 100644
--- a/generate.go
+++ b/generate.go
@@ -104,7 +104,7 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 					// range; one wholly above U+10FFFF (or with max < min) yields none.
 					min, n := scalarRange(numvalToInt32(elem.Elems[0], elem.Base), numvalToInt32(elem.Elems[1], elem.Base))
 					if n > 0 {
-						r := scalarAt(min, int32(rand.Int63()&0x0F)%n) // mask 0x0F to keep the 32-bit part (rune size)
+						r := scalarAt(min, int32(rand.Int63()%int64(n)))
 						appendPtr(out, r)
 					}
 
-- 
2.43.0


From 6c0f01904ac2c34be061b7980596ce86bb1f626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:43 +0000
Subject: [PATCH 28/34] fix: Generate must vary the case of upper-case letters
 as well

---
 generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate.go b/generate.go
index 1da1dfe..fec058c 100644
--- a/generate.go
+++ b/generate.go
@@ -122,7 +122,7 @@ func generateAlt(rand rand.Source, g *Grammar, out *[]byte, alt Alternation, opt
 			case ElemCharVal:
 				for _, val := range elem.Values {
 					if !elem.Sensitive && (int(rand.Int63())%2) == 0 {
-						val = runeMax(val)
+						val = flipASCIICase(val)
 					}
 					appendPtr(out, val)
 				}
-- 
2.43.0


From 875427711369db9615464013fbf8b7648d61cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:50 +0000
Subject: [PATCH 29/34] fix: Generate must not walk every path of the grammar
 to tell whether it can

The safety check explored each way through the rules, such that a few dozen
rules that refer twice to the next made it run forever. Whether a rule derives
something is what the ranks already tell.
---
 generate.go | 117 ++++------------------------------------------------
 1 file changed, 7 insertions(+), 110 deletions(-)

diff --git a/generate.go b/generate.go
index fec058c..f16bf8a 100644
--- a/generate.go
+++ b/generate.go
@@ -1,8 +1,6 @@
 package goabnf
 
 import (
-	"errors"
-	"maps"
 	"math"
 	"math/rand"
 	"strings"
@@ -20,8 +18,11 @@ import (
 // It is a good capability for testing and fuzzing parsers during
 // testing, compliance, fuzzing or optimization.
 func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption) ([]byte, error) {
-	if err := checkCanGenerateSafely(g, rulename); err != nil {
-		return nil, err
+	rule := GetRule(rulename, g.Rulemap)
+	if rule == nil {
+		return nil, &ErrRuleNotFound{
+			Rulename: rulename,
+		}
 	}
 
 	// Use a pseudo-random number generator
@@ -36,8 +37,8 @@ func (g *Grammar) Generate(seed int64, rulename string, opts ...GenerateOption)
 		opt.apply(options)
 	}
 
-	// Generate actual content (rule exists, checked first)
-	rule := GetRule(rulename, g.Rulemap)
+	// Generate actual content, if there is some: a rule is ranked unless it can't
+	// exist without infinite recursion, a prose-val or an unknown rule.
 	options.ranks = generateRanks(g)
 	if options.ranks.alt(rule.Alternation) == unrankable {
 		return nil, &ErrCyclicRule{
@@ -249,107 +250,3 @@ func WithThreshold(threshold int) thresholdOption {
 func (opt thresholdOption) apply(opts *genOpts) {
 	opts.threshold = int(opt)
 }
-
-// checkCanGenerateSafely returns no error if the rule can be generated
-// safely i.e. if the rule can exist without infinite recursion, AND if it
-// does not contain a prose-val as it could not generate from it.
-// Factually, it checks if all involved rules have no path v such that it
-// produces a cycle (v:rule-*->rule) AND that this path is mandatory
-// (no option, no repetition with a minimum of zero).
-func checkCanGenerateSafely(g *Grammar, rulename string) error {
-	rule := GetRule(rulename, g.Rulemap)
-	if rule == nil {
-		return &ErrRuleNotFound{
-			Rulename: rulename,
-		}
-	}
-	knownRules := map[string]struct{}{
-		rulename: {},
-	}
-	if err := checkCanGenerateSafelyAlt(g, knownRules, rule.Alternation); err != nil {
-		if err, ok := err.(*ErrCyclicRule); ok {
-			return err
-		}
-		return &ErrCyclicRule{
-			Rulename: rulename,
-		}
-	}
-	return nil
-}
-
-func checkCanGenerateSafelyAlt(g *Grammar, knownRules map[string]struct{}, alt Alternation) error {
-	errs := make([]error, len(alt.Concatenations))
-	for alti, concat := range alt.Concatenations {
-		errs[alti] = checkCanGenerateSafelyConcat(g, knownRules, concat)
-	}
-	allErrors := true
-	for i := 0; i < len(errs) && allErrors; i++ {
-		if errs[i] == nil {
-			allErrors = false
-		}
-	}
-	if allErrors {
-		return errors.Join(errs...)
-	}
-	return nil
-}
-
-func checkCanGenerateSafelyConcat(g *Grammar, knownRules map[string]struct{}, concat Concatenation) error {
-	for _, rep := range concat.Repetitions {
-		// If the repetition is not mandatory, we can escape so can
-		// generate safely.
-		if rep.Min == 0 {
-			continue
-		}
-
-		// Deal with the repetition itself then.
-		switch elem := rep.Element.(type) {
-		case ElemRulename:
-			// Copy rules to only focus on rules that made use come here.
-			// If shared with others, the dependency graph can lead to the same rule
-			// from another path without it being a cycle, thus must be handled.
-			scopeRules := duplicateMap(knownRules)
-			for known := range scopeRules {
-				if strings.EqualFold(elem.Name, known) {
-					return &ErrCyclicRule{
-						Rulename: elem.Name,
-					}
-				}
-			}
-			rule := GetRule(elem.Name, g.Rulemap)
-			if rule == nil {
-				return &ErrRuleNotFound{
-					Rulename: elem.Name,
-				}
-			}
-			scopeRules[elem.Name] = struct{}{}
-			if err := checkCanGenerateSafelyAlt(g, scopeRules, rule.Alternation); err != nil {
-				if err, ok := err.(*ErrCyclicRule); ok {
-					return err
-				}
-				return &ErrCyclicRule{
-					Rulename: elem.Name,
-				}
-			}
-
-		case ElemGroup:
-			if err := checkCanGenerateSafelyAlt(g, knownRules, elem.Alternation); err != nil {
-				return err
-			}
-
-		case ElemProseVal:
-			return ErrHandlingProseVal
-
-			// Other types are not considered for the following reasons:
-			// - option: equivalent to rep.min==0, escapable path even if could be cyclic
-			// - num-val, char-val: termination paths, can't be cyclic
-		}
-	}
-	return nil
-}
-
-func duplicateMap[T comparable, V any](m map[T]V) map[T]V {
-	n := make(map[T]V, len(m))
-	maps.Copy(n, m)
-	return n
-}
-- 
2.43.0


From 4946e9ccf269503202c675ad794f50bf9a2e2213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:50 +0000
Subject: [PATCH 30/34] fix: Regex must not blow up before its length budget is
 looked at

Simplification flattened nested concatenations and alternations, hence unshared
the expressions of rules used several times: an exponential amount of memory
was needed ahead of the check of WithMaxRegexLen.
---
 regex.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/regex.go b/regex.go
index 74fea9f..5b6fbc8 100644
--- a/regex.go
+++ b/regex.go
@@ -245,12 +245,10 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 		never := false
 		for _, p := range v.parts {
 			sp := simplify(p, memo)
-			switch x := sp.(type) {
+			switch sp.(type) {
 			case *reEmpty: // drop: empty in a concatenation contributes nothing
 			case *reNever: // one un-matchable part makes the whole sequence un-matchable
 				never = true
-			case *reConcat:
-				parts = append(parts, x.parts...) // flatten
 			default:
 				parts = append(parts, sp)
 			}
@@ -272,11 +270,19 @@ func simplify(n reNode, memo map[reNode]reNode) reNode {
 			if isNever(so) { // a never-matching branch is dead; drop it
 				continue
 			}
+			// Pull the class (if any, it comes first) out of a nested alternation, to
+			// be folded with the others. What is left is not copied, as it may be
+			// shared: nested, it renders the same.
 			if x, ok := so.(*reAlt); ok {
-				opts = append(opts, x.opts...) // flatten
-			} else {
-				opts = append(opts, so)
+				if _, ok := x.opts[0].(*reClass); ok {
+					opts = append(opts, x.opts[0])
+					so = x.opts[1]
+					if len(x.opts) > 2 {
+						so = &reAlt{opts: x.opts[1:]}
+					}
+				}
 			}
+			opts = append(opts, so)
 		}
 		// Fold every class option into a single merged class: turns an
 		// alternation of single characters / ranges into one [...].
-- 
2.43.0


From f44e597f61d700d74ab9ce35d781ce2d0d106d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:50 +0000
Subject: [PATCH 31/34] fix: a node budget must bound repetitions of nothing

The parsers built one state per iteration of a counted repetition whose element
derives nothing ahead of any node, whatever the budget: with a count in the
billions the memory ran out before the budget could abort the parse.
---
 bsr.go     | 4 ++++
 codegen.go | 2 ++
 sppf.go    | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/bsr.go b/bsr.go
index e0e3003..12dc557 100644
--- a/bsr.go
+++ b/bsr.go
@@ -133,6 +133,10 @@ func (p *bsrParser) pop(u *bsrGNode, j int) {
 }
 
 func (p *bsrParser) addRepAlts(ntID int, v *bsrGNode, i, rc int) {
+	if p.maxElems > 0 && rc-len(p.input) > p.maxElems {
+		p.aborted = true // see gllParser.addRepAlts
+		return
+	}
 	nt := p.sg.nts[ntID]
 	if rc >= nt.repMin {
 		p.add(slot{ntID, 0, 0}, v, i, rc)
diff --git a/codegen.go b/codegen.go
index a44d3dd..ab76528 100644
--- a/codegen.go
+++ b/codegen.go
@@ -180,6 +180,8 @@ func (c *codegen) emitCall(b *strings.Builder, s sInfo, callee, retID int) {
 			} else {
 				b.WriteString("\t\t\tcrc := rc + 1\n")
 			}
+			// so many iterations over nothing complete with an element each
+			b.WriteString("\t\t\tif MaxElements > 0 && crc-len(p.input) > MaxElements {\n\t\t\t\tp.aborted = true\n\t\t\t\treturn\n\t\t\t}\n")
 			fmt.Fprintf(b, "\t\t\tif crc >= %d {\n\t\t\t\tp.add(%d, v, i, crc)\n\t\t\t}\n", ci.repMin, c.startID(callee, 0))
 			if ci.repMax == inf {
 				fmt.Fprintf(b, "\t\t\tp.add(%d, v, i, crc)\n", c.startID(callee, 1))
diff --git a/sppf.go b/sppf.go
index 8f6419f..1d3d93c 100644
--- a/sppf.go
+++ b/sppf.go
@@ -610,7 +610,15 @@ func capRC(rc int, nt *sgNT) int {
 // grammar, mirroring the recognizer's c>=min / c<max gates. rc is carried in the
 // GSS key so two derivations that reach the same point with different committed
 // counts are kept distinct (no over-/under-counting via shared continuations).
+//
+// A count over the input's length by more than the node budget can only come of
+// iterations over nothing: such a chain always completes, with a node per count,
+// so the budget is already known not to suffice.
 func (p *gllParser) addRepAlts(ntID int, v *gssNode, i, rc int) {
+	if p.maxNodes > 0 && rc-len(p.input) > p.maxNodes {
+		p.aborted = true
+		return
+	}
 	nt := p.sg.nts[ntID]
 	if rc >= nt.repMin {
 		p.add(slot{ntID, 0, 0}, v, i, nil, rc) // stop: alt 0 == [eps]
-- 
2.43.0


From 74d69e790601a9cc9b08b92f92623b2d113bb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:58 +0000
Subject: [PATCH 32/34] fix: WithMaxNodes must bound repetitions of nothing

The chain of a repetition whose element has no node at all was as long as its
count, whatever the node budget.
---
 transition_graph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transition_graph.go b/transition_graph.go
index 7367f75..b29586e 100644
--- a/transition_graph.go
+++ b/transition_graph.go
@@ -1165,6 +1165,10 @@ func chainTransitionGraph(i, o []*Node, n int) (tgs []TransitionGraph, entrypoin
 	if n == 0 {
 		return
 	}
+	// Any number of nothing is nothing, there is no node to account for.
+	if !slices.ContainsFunc(i, func(n *Node) bool { return n != emptyNode }) {
+		n = 1
+	}
 	tgs = make([]TransitionGraph, n)
 
 	// Init chaining
-- 
2.43.0


From 21c7ba7cf3630e5da0900fe97f87440d06fbc8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:37 +0000
Subject: [PATCH 33/34] fix: rank rules without looking each of them up again
 on every pass

The time it took was cubic in the length of a chain of rules.
---
 generate.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/generate.go b/generate.go
index f16bf8a..3792954 100644
--- a/generate.go
+++ b/generate.go
@@ -159,17 +159,20 @@ const unrankable = math.MaxInt
 type ranks map[string]int
 
 func generateRanks(g *Grammar) ranks {
+	rules := map[string]*Rule{}
+	for _, rulemap := range []map[string]*Rule{g.Rulemap, coreRules} {
+		for name := range rulemap {
+			rules[strings.ToLower(name)] = GetRule(name, g.Rulemap)
+		}
+	}
 	rk := ranks{}
 	for changed := true; changed; {
 		changed = false
-		for _, rulemap := range []map[string]*Rule{g.Rulemap, coreRules} {
-			for name := range rulemap {
-				key := strings.ToLower(name)
-				r := rk.alt(GetRule(name, g.Rulemap).Alternation)
-				if prev, ok := rk[key]; r != unrankable && (!ok || r < prev) {
-					rk[key] = r
-					changed = true
-				}
+		for key, rule := range rules {
+			r := rk.alt(rule.Alternation)
+			if prev, ok := rk[key]; r != unrankable && (!ok || r < prev) {
+				rk[key] = r
+				changed = true
 			}
 		}
 	}
-- 
2.43.0


From f7f45f9f335554915027639e3ac35ef2d16e63d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:35 +0000
Subject: [PATCH 34/34] fix: keep what Go source cannot hold out of the
 comments of generated parsers

---
 codegen.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/codegen.go b/codegen.go
index ab76528..ea02c5f 100644
--- a/codegen.go
+++ b/codegen.go
@@ -412,7 +412,7 @@ func (c *codegen) slotComment(s sInfo) string {
 	if s.dot == len(prod) {
 		parts = append(parts, ".")
 	}
-	return strings.TrimSpace(name+" ::= "+strings.Join(parts, " ")) +
+	return sanitizeComment(strings.TrimSpace(name+" ::= "+strings.Join(parts, " "))) +
 		fmt.Sprintf("  (%d,%d,%d)", s.nt, s.alt, s.dot)
 }
 
@@ -431,7 +431,7 @@ func symStr(sg *slotGrammar, s ssym) string {
 		return "eps"
 	default:
 		if s.term != nil {
-			return sanitizeComment(s.term.String())
+			return s.term.String()
 		}
 		return "?"
 	}
@@ -439,9 +439,15 @@ func symStr(sg *slotGrammar, s ssym) string {
 
 func sanitizeComment(s string) string {
 	s = strings.ReplaceAll(s, "*/", "* /")
-	s = strings.ReplaceAll(s, "\r", " ")
-	s = strings.ReplaceAll(s, "\n", " ")
-	return s
+	// Go source holds neither line breaks within a comment nor, anywhere, NUL, byte
+	// order marks or invalid UTF-8.
+	return strings.Map(func(r rune) rune {
+		switch r {
+		case '\r', '\n', 0, 0xFEFF:
+			return ' '
+		}
+		return r
+	}, s)
 }
 
 func foldByte(b byte) byte {
-- 
2.43.0

