-------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* Analyses of a grammar as such: dependencies, cycles, prose, what can be *)
(* spelled by finite strings, how far repetitions multiply.                *)
(***************************************************************************)
EXTENDS Abnf

Names(gr) == DOMAIN gr \cup DOMAIN Core
Deps(gr, nm) == Refs(RuleAlt(gr, nm))

\* following references from nm comes back to nm
OnCycle(gr, nm) == nm \in ReachNames(gr, Deps(gr, nm))
HasCycle(gr, nm) == \E m \in ReachNames(gr, {nm}) : OnCycle(gr, m)
Acyclic(gr) == \A nm \in Names(gr) : ~OnCycle(gr, nm)

RECURSIVE AltHas(_, _)
AltHas(alt, t) == \E i \in DOMAIN alt : \E j \in DOMAIN alt[i] :
                    LET el == alt[i][j].e
                    IN  el.t = t \/ (el.t \in {"grp", "opt"} /\ AltHas(el.a, t))
ProseReachable(gr, nm) == \E m \in ReachNames(gr, {nm}) : AltHas(RuleAlt(gr, m), "pro")

\* Productive names: those that derive some finite string.
RECURSIVE AltProd(_, _)
HasScalar(lo, hi) == \/ lo <= 55295 /\ lo <= hi
                     \/ hi >= 57344 /\ lo <= hi /\ lo <= MaxRune
ElemProd(P, el) == CASE el.t = "ref" -> el.n \in P
                     [] el.t = "grp" -> AltProd(P, el.a)
                     [] el.t = "opt" -> TRUE
                     [] el.t = "ser" -> \A i \in DOMAIN el.v : IsScalar(el.v[i])
                     [] el.t = "rng" -> HasScalar(el.lo, el.hi)
                     [] el.t = "chr" -> \A i \in DOMAIN el.v : IsScalar(el.v[i])
                     [] OTHER        -> FALSE
RepProd(P, rp) == /\ rp.mx = Inf \/ rp.mn <= rp.mx
                  /\ rp.mn = 0 \/ ElemProd(P, rp.e)
AltProd(P, alt) == \E i \in DOMAIN alt : \A j \in DOMAIN alt[i] : RepProd(P, alt[i][j])
RECURSIVE ProdFix(_, _, _)
ProdFix(gr, names, P) ==
  LET N == TLCEval({ nm \in names : AltProd(P, RuleAlt(gr, nm)) })
  IN  IF N = P THEN P ELSE ProdFix(gr, names, N)
ProductiveNames(gr, names) == ProdFix(gr, names, {})
Productive(gr, nm) == nm \in ProductiveNames(gr, ReachNames(gr, {nm}))

\* Largest product of nested repetition bounds (a cycle-free rule).
MaxI(a, b) == IF a >= b THEN a ELSE b
Times(a, b) == IF a > 100000 \div MaxI(b, 1) THEN 100000 ELSE a * MaxI(b, 1)
RECURSIVE AltProduct(_, _)
AltProduct(gr, alt) ==
  LET one(rp) == Times(MaxI(rp.mn, rp.mx),
                   CASE rp.e.t = "ref" -> AltProduct(gr, RuleAlt(gr, rp.e.n))
                     [] rp.e.t \in {"grp", "opt"} -> AltProduct(gr, rp.e.a)
                     [] OTHER -> 1)
      S == { one(alt[i][j]) : <<i, j>> \in { <<x, y>> \in (DOMAIN alt) \X (1..32) : y \in DOMAIN alt[x] } }
  IN  MaxOf({1} \cup S)

\* The grammar in which unbounded repetitions have a maximum: the larger of
\* m.to and the minimum plus m.add.
RECURSIVE CapAlt(_, _)
CapElem(m, el) == IF el.t \in {"grp", "opt"} THEN [el EXCEPT !.a = CapAlt(m, el.a)] ELSE el
CapAlt(m, alt) ==
  [i \in DOMAIN alt |-> [j \in DOMAIN alt[i] |->
     LET rp == alt[i][j]
     IN  [rp EXCEPT !.mx = IF rp.mx = Inf THEN MaxI(m.to, rp.mn + m.add) ELSE rp.mx, !.e = CapElem(m, rp.e)]]]
CappedBy(gr, root, m) ==
  [nm \in { x \in ReachNames(gr, {root}) : Defined(gr, x) } |-> CapAlt(m, RuleAlt(gr, nm))]
Capped(gr, root, cap)   == CappedBy(gr, root, [to |-> 0, add |-> cap])
CappedTo(gr, root, cap) == CappedBy(gr, root, [to |-> cap, add |-> 0])

\* The grammar in which nothing optional is left D rules deep: a copy of every
\* rule per depth.
AtDepth(nm, d) == nm \o "@" \o ToString(d)
RECURSIVE DeepAlt(_, _, _)
DeepElem(el, d, D) ==
  CASE el.t = "ref" -> [el EXCEPT !.n = AtDepth(el.n, IF d < D THEN d + 1 ELSE D)]
    [] el.t = "grp" -> [el EXCEPT !.a = DeepAlt(el.a, d, D)]
    [] el.t = "opt" -> IF d >= D THEN Grp(<< <<>> >>) ELSE [el EXCEPT !.a = DeepAlt(el.a, d, D)]
    [] OTHER        -> el
DeepAlt(alt, d, D) ==
  [i \in DOMAIN alt |-> [j \in DOMAIN alt[i] |->
     LET rp == alt[i][j]
     IN  [rp EXCEPT !.mx = IF d >= D /\ rp.mn <= rp.mx THEN rp.mn ELSE rp.mx, !.e = DeepElem(rp.e, d, D)]]]
DepthCapped(gr, D) ==
  LET src == [x \in { AtDepth(nm, d) : nm \in DOMAIN gr, d \in 0..D } |->
                CHOOSE y \in (DOMAIN gr) \X (0..D) : AtDepth(y[1], y[2]) = x]
  IN  [x \in DOMAIN src |-> DeepAlt(gr[src[x][1]], src[x][2], D)]
=============================================================================
