-------------------------------- MODULE Abnf --------------------------------
(***************************************************************************)
(* The meaning of an ABNF grammar (RFC 5234 / RFC 7405) over an input.     *)
(*                                                                         *)
(*   Reach     which ends a rule reaches from which offset (recognition)   *)
(*   Weights   how many derivations there are, Infinite included           *)
(*   TreeOk    whether a concrete tree is one of these derivations         *)
(*   Attempts  which terminals a derivation prefix may try, and where      *)
(*                                                                         *)
(* Everything is defined by induction over the abstract syntax and least / *)
(* greatest fixpoints over the rules - no parsing algorithm is involved.   *)
(* The implementation's recorded answers are checked against these         *)
(* definitions (Trace), and what they say of a family of grammars is       *)
(* replayed into it (SmallGrammars).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Utf8, CoreRules

Fold(x) == IF x >= 65 /\ x <= 90 THEN x + 32 ELSE x
SameChar(a, b, sensitive) == a = b \/ (~sensitive /\ Fold(a) = Fold(b))

\* What the definitions below are relative to: a grammar and an input.
Ctx(gr, w) == [ g   |-> gr,
                n   |-> Len(w),
                thr |-> -1,        \* offset from which nothing optional is added (generators), or none
                dec |-> TLCEval([i \in 0..(Len(w) - 1) |-> DecodeAt(w, i)]) ]

-----------------------------------------------------------------------------
(* Terminals: the end reached by el from p, or -1.                         *)

RECURSIVE CodesEnd(_, _, _, _, _)
CodesEnd(c, v, sensitive, k, p) ==
  IF k > Len(v) THEN p
  ELSE IF p >= c.n THEN -1
  ELSE LET d == c.dec[p]
       IN  IF d.n = 0 \/ ~SameChar(v[k], d.r, sensitive) THEN -1
           ELSE CodesEnd(c, v, sensitive, k + 1, p + d.n)

TermEnd(c, el, p) ==
  CASE el.t = "chr" -> CodesEnd(c, el.v, el.s, 1, p)
    [] el.t = "ser" -> CodesEnd(c, el.v, TRUE, 1, p)
    [] el.t = "rng" -> IF p >= c.n THEN -1
                       ELSE LET d == c.dec[p]
                            IN  IF d.n > 0 /\ el.lo <= d.r /\ d.r <= el.hi THEN p + d.n ELSE -1
    [] OTHER        -> -1

-----------------------------------------------------------------------------
(* Reach: T[p][name] is the set of ends of rule name from offset p.        *)

RECURSIVE ElemEnds(_, _, _, _), AltEnds(_, _, _, _), ConcatEnds(_, _, _, _, _),
          Level(_, _, _, _, _), Close(_, _, _, _, _, _)

StepSet(c, T, el, S) == UNION { ElemEnds(c, T, el, q) : q \in S }

\* positions after exactly k occurrences (levels that settle stay settled)
Level(c, T, el, S, k) ==
  IF k = 0 \/ S = {} THEN S
  ELSE LET N == TLCEval(StepSet(c, T, el, S))
       IN  IF N = S THEN S ELSE Level(c, T, el, N, k - 1)

\* acc and what is reached from front with at most k more occurrences
Close(c, T, el, acc, front, k) ==
  IF k = 0 \/ front = {} THEN acc
  ELSE LET N == TLCEval(StepSet(c, T, el, IF c.thr < 0 THEN front ELSE { q \in front : q < c.thr }) \ acc)
       IN  Close(c, T, el, acc \cup N, N, IF k = Inf THEN Inf ELSE k - 1)

RepEnds(c, T, rp, p) ==
  IF rp.mn = 1 /\ rp.mx = 1 THEN ElemEnds(c, T, rp.e, p)
  ELSE IF rp.mx # Inf /\ rp.mx < rp.mn THEN {}
  ELSE LET lvl == TLCEval(Level(c, T, rp.e, {p}, rp.mn))
       IN  Close(c, T, rp.e, lvl, lvl, IF rp.mx = Inf THEN Inf ELSE rp.mx - rp.mn)

ConcatEnds(c, T, ct, k, S) ==
  IF k > Len(ct) \/ S = {} THEN S
  ELSE ConcatEnds(c, T, ct, k + 1, TLCEval(UNION { RepEnds(c, T, ct[k], q) : q \in S }))

AltEnds(c, T, alt, p) == UNION { ConcatEnds(c, T, alt[i], 1, {p}) : i \in DOMAIN alt }

ElemEnds(c, T, el, p) ==
  CASE el.t = "ref" -> IF el.n \in DOMAIN T[p] THEN T[p][el.n] ELSE {}
    [] el.t = "grp" -> AltEnds(c, T, el.a, p)
    [] el.t = "opt" -> {p} \cup (IF c.thr >= 0 /\ p >= c.thr THEN {} ELSE AltEnds(c, T, el.a, p))
    [] OTHER        -> LET e == TermEnd(c, el, p) IN IF e < 0 THEN {} ELSE {e}

\* Least fixpoint, offset by offset from the right: a rule at p only depends
\* on rules at offsets >= p.
WithRow(c, T, p, row) == [q \in p..c.n |-> IF q = p THEN row ELSE T[q]]

RECURSIVE GrowRow(_, _, _, _, _)
GrowRow(c, names, T, p, row) ==
  LET TT  == TLCEval(WithRow(c, T, p, row))
      nxt == TLCEval([nm \in names |-> AltEnds(c, TT, RuleAlt(c.g, nm), p)])
  IN  IF nxt = row THEN TT ELSE GrowRow(c, names, T, p, nxt)

RECURSIVE ReachFrom(_, _, _, _)
ReachFrom(c, names, T, p) ==
  IF p < 0 THEN T
  ELSE ReachFrom(c, names, TLCEval(GrowRow(c, names, T, p, [nm \in names |-> {}])), p - 1)

Reach(c, names) == ReachFrom(c, names, <<>>, c.n)

Derives(gr, root, w) ==
  LET c == Ctx(gr, w)
  IN  c.n \in Reach(c, ReachNames(gr, {root}))[0][root]

-----------------------------------------------------------------------------
(* Weights: number of derivations, saturated at Cap, or Many_ (infinite).  *)
(* W[p][name][q] counts the derivations of name from p to q.               *)

Cap   == 30000
Infty == -1
WAdd(a, b) == IF a = Infty \/ b = Infty THEN Infty
              ELSE IF a + b > Cap THEN Cap ELSE a + b
WMul(a, b) == IF a = 0 \/ b = 0 THEN 0
              ELSE IF a = Infty \/ b = Infty THEN Infty
              ELSE IF a * b > Cap THEN Cap ELSE a * b

Zero(c) == [q \in 0..c.n |-> 0]
Unit(c, p) == [q \in 0..c.n |-> IF q = p THEN 1 ELSE 0]
VAdd(c, a, b) == TLCEval([q \in 0..c.n |-> WAdd(a[q], b[q])])
Supp(c, v) == { q \in 0..c.n : v[q] # 0 }

RECURSIVE SumOver(_, _, _)
SumOver(S, v, acc) == IF S = {} THEN acc
                      ELSE LET q == CHOOSE x \in S : TRUE
                           IN  SumOver(S \ {q}, v, WAdd(acc, v[q]))

RECURSIVE ElemW(_, _, _, _), AltW(_, _, _, _, _), ConcatW(_, _, _, _, _),
          LevelW(_, _, _, _, _), RangeW(_, _, _, _, _, _), StarW(_, _, _, _, _)

StepV(c, W, el, V) ==
  LET S  == Supp(c, V)
      E  == TLCEval([q \in S |-> ElemW(c, W, el, q)])
  IN  TLCEval([j \in 0..c.n |->
        SumOver({ q \in S : E[q][j] # 0 }, [q \in S |-> WMul(V[q], E[q][j])], 0)])

LevelW(c, W, el, V, k) ==
  IF k = 0 \/ Supp(c, V) = {} THEN V ELSE LevelW(c, W, el, StepV(c, W, el, V), k - 1)

RangeW(c, W, el, acc, V, k) ==
  IF k = 0 \/ Supp(c, V) = {} THEN acc
  ELSE LET N == StepV(c, W, el, V) IN RangeW(c, W, el, VAdd(c, acc, N), N, k - 1)

\* unbounded: S[q] = V[q] + sum of S[x] * E[x][q]; an occurrence that consumes
\* nothing can be repeated for ever.
StarW(c, W, el, S, q) ==
  IF q > c.n THEN S
  ELSE IF S[q] = 0 THEN StarW(c, W, el, S, q + 1)
  ELSE LET E  == TLCEval(ElemW(c, W, el, q))
           sq == IF E[q] # 0 THEN Infty ELSE S[q]
           S2 == TLCEval([j \in 0..c.n |-> IF j = q THEN sq
                                           ELSE IF j < q THEN S[j]
                                           ELSE WAdd(S[j], WMul(sq, E[j]))])
       IN  StarW(c, W, el, S2, q + 1)

RepW(c, W, rp, p) ==
  IF rp.mn = 1 /\ rp.mx = 1 THEN ElemW(c, W, rp.e, p)
  ELSE IF rp.mx # Inf /\ rp.mx < rp.mn THEN Zero(c)
  ELSE LET V == LevelW(c, W, rp.e, Unit(c, p), rp.mn)
       IN  IF rp.mx = Inf THEN StarW(c, W, rp.e, V, p)
           ELSE RangeW(c, W, rp.e, V, V, rp.mx - rp.mn)

ConcatW(c, W, ct, k, V) ==
  IF k > Len(ct) THEN V
  ELSE LET S == Supp(c, V)
           R == TLCEval([q \in S |-> RepW(c, W, ct[k], q)])
       IN  IF S = {} THEN V
           ELSE ConcatW(c, W, ct, k + 1, TLCEval([j \in 0..c.n |->
             SumOver({ q \in S : R[q][j] # 0 }, [q \in S |-> WMul(V[q], R[q][j])], 0)]))

AltW(c, W, alt, k, p) ==
  IF k > Len(alt) THEN Zero(c)
  ELSE VAdd(c, ConcatW(c, W, alt[k], 1, Unit(c, p)), AltW(c, W, alt, k + 1, p))

ElemW(c, W, el, p) ==
  CASE el.t = "ref" -> IF el.n \in DOMAIN W[p] THEN W[p][el.n] ELSE Zero(c)
    [] el.t = "grp" -> AltW(c, W, el.a, 1, p)
    [] el.t = "opt" -> VAdd(c, Unit(c, p), AltW(c, W, el.a, 1, p))
    [] OTHER        -> LET e == TermEnd(c, el, p) IN IF e < 0 THEN Zero(c) ELSE Unit(c, e)

\* Greatest fixpoint: start from "infinitely many" wherever there is a
\* derivation; a count is settled once everything it depends on is.  What never
\* settles depends on itself: there are infinitely many derivations.
RECURSIVE SettleRow(_, _, _, _, _)
SettleRow(c, names, W, p, row) ==
  LET WW  == TLCEval(WithRow(c, W, p, row))
      nxt == TLCEval([nm \in names |-> AltW(c, WW, RuleAlt(c.g, nm), 1, p)])
  IN  IF nxt = row THEN WW ELSE SettleRow(c, names, W, p, nxt)

RECURSIVE WeightsFrom(_, _, _, _, _)
WeightsFrom(c, names, T, W, p) ==
  IF p < 0 THEN W
  ELSE WeightsFrom(c, names, T,
         TLCEval(SettleRow(c, names, W, p,
           [nm \in names |-> [q \in 0..c.n |-> IF q \in T[p][nm] THEN Infty ELSE 0]])),
         p - 1)

Weights(c, names, T) == WeightsFrom(c, names, T, <<>>, c.n)

-----------------------------------------------------------------------------
(* TreeOk: a concrete tree [r |-> rule ("" for a terminal), s |-> start,   *)
(* e |-> end, c |-> children] is a derivation.  The children of a node are *)
(* matched one by one along some derivation of the rule's alternation:     *)
(* positions are pairs <<offset, children consumed>>.                      *)

RECURSIVE ElemT(_, _, _, _), AltT(_, _, _, _), ConcatT(_, _, _, _, _),
          LevelT(_, _, _, _, _), CloseT(_, _, _, _, _, _)

StepT(c, ks, el, S) == UNION { ElemT(c, ks, el, q) : q \in S }
LevelT(c, ks, el, S, k) ==
  IF k = 0 \/ S = {} THEN S
  ELSE LET N == TLCEval(StepT(c, ks, el, S)) IN IF N = S THEN S ELSE LevelT(c, ks, el, N, k - 1)
CloseT(c, ks, el, acc, front, k) ==
  IF k = 0 \/ front = {} THEN acc
  ELSE LET N == TLCEval(StepT(c, ks, el, front) \ acc)
       IN  CloseT(c, ks, el, acc \cup N, N, IF k = Inf THEN Inf ELSE k - 1)
RepT(c, ks, rp, q) ==
  IF rp.mx # Inf /\ rp.mx < rp.mn THEN {}
  ELSE LET lvl == TLCEval(LevelT(c, ks, rp.e, {q}, rp.mn))
       IN  CloseT(c, ks, rp.e, lvl, lvl, IF rp.mx = Inf THEN Inf ELSE rp.mx - rp.mn)
ConcatT(c, ks, ct, k, S) ==
  IF k > Len(ct) \/ S = {} THEN S
  ELSE ConcatT(c, ks, ct, k + 1, TLCEval(UNION { RepT(c, ks, ct[k], q) : q \in S }))
AltT(c, ks, alt, q) == UNION { ConcatT(c, ks, alt[i], 1, {q}) : i \in DOMAIN alt }

ElemT(c, ks, el, q) ==
  LET p == q[1]
      k == q[2]
      more == k < Len(ks)
      kid  == ks[k + 1]
  IN CASE el.t = "ref" -> IF more /\ kid.r = el.n /\ kid.s = p /\ kid.e \in p..c.n THEN {<<kid.e, k + 1>>} ELSE {}
       [] el.t = "grp" -> AltT(c, ks, el.a, q)
       [] el.t = "opt" -> {q} \cup AltT(c, ks, el.a, q)
       [] OTHER ->
          LET e == TermEnd(c, el, p)
              \* an empty terminal may or may not have a leaf of its own
              leaf == IF e >= 0 /\ more /\ kid.r = "" /\ kid.s = p /\ kid.e = e /\ kid.c = <<>>
                      THEN {<<e, k + 1>>} ELSE {}
          IN  IF e < 0 THEN {} ELSE IF e = p THEN leaf \cup {q} ELSE leaf

RECURSIVE NodeOk(_, _)
NodeOk(c, t) ==
  \/ t.r = ""                               \* leaf: judged by its parent
  \/ /\ t.s >= 0 /\ t.s <= t.e /\ t.e <= c.n
     /\ <<t.e, Len(t.c)>> \in AltT(c, t.c, RuleAlt(c.g, t.r), <<t.s, 0>>)
     /\ \A i \in DOMAIN t.c : NodeOk(c, t.c[i])

\* A tree cut short where a rule meets itself over the same octets: its nodes
\* are extents of their rules, one after the other within their parent.
RECURSIVE Sketch(_, _, _, _, _)
Sketch(c, T, t, lo, hi) ==
  /\ lo <= t.s /\ t.s <= t.e /\ t.e <= hi
  /\ IF t.r = "" THEN t.c = <<>>
     ELSE /\ t.r \in DOMAIN T[t.s] /\ t.e \in T[t.s][t.r]
          /\ \A i \in DOMAIN t.c : Sketch(c, T, t.c[i], IF i = 1 THEN t.s ELSE t.c[i - 1].e, t.e)

TreeOk(gr, root, w, t) ==
  LET c == Ctx(gr, w) IN t.r = root /\ t.s = 0 /\ t.e = c.n /\ NodeOk(c, t)

-----------------------------------------------------------------------------
(* Attempts: the terminals (and rules) a derivation prefix tries, where.   *)

RECURSIVE ElemAtt(_, _, _, _), AltAtt(_, _, _, _), ConcatAtt(_, _, _, _, _),
          CloseAtt(_, _, _, _, _, _)

\* occurrences are attempted from every position reached with fewer than mx
CloseAtt(c, T, el, acc, front, k) ==
  IF k = 0 \/ front = {} THEN UNION { ElemAtt(c, T, el, q) : q \in acc }
  ELSE LET N == TLCEval(StepSet(c, T, el, front) \ acc)
       IN  CloseAtt(c, T, el, acc \cup N, N, IF k = Inf THEN Inf ELSE k - 1)

RepAtt(c, T, rp, p) ==
  IF rp.mx = 0 \/ (rp.mx # Inf /\ rp.mx < rp.mn) THEN {}
  ELSE CloseAtt(c, T, rp.e, {p}, {p}, IF rp.mx = Inf THEN Inf ELSE rp.mx - 1)

ConcatAtt(c, T, ct, k, S) ==
  IF k > Len(ct) \/ S = {} THEN {}
  ELSE UNION { RepAtt(c, T, ct[k], q) : q \in S }
       \cup ConcatAtt(c, T, ct, k + 1, TLCEval(UNION { RepEnds(c, T, ct[k], q) : q \in S }))

AltAtt(c, T, alt, p) == UNION { ConcatAtt(c, T, alt[i], 1, {p}) : i \in DOMAIN alt }

ElemAtt(c, T, el, p) ==
  CASE el.t \in {"grp", "opt"} -> AltAtt(c, T, el.a, p)
    [] OTHER -> {[e |-> el, p |-> p]}

RECURSIVE AttFix(_, _, _, _)
AttFix(c, T, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET new  == TLCEval(UNION { IF x.e.t = "ref" THEN AltAtt(c, T, RuleAlt(c.g, x.e.n), x.p) ELSE {}
                                   : x \in todo } \ seen)
       IN  AttFix(c, T, seen \cup new, new)

Attempts(c, T, root) ==
  LET start == {[e |-> Ref(root), p |-> 0]}
  IN  { x \in AttFix(c, T, start, start) : x.e.t # "ref" }

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* Furthest offset consumed by a derivation prefix, and the terminals that
\* could have come next there.
Furthest(c, T, root) ==
  LET A == TLCEval(Attempts(c, T, root))
  IN  MaxOf({0} \cup { x.p : x \in A } \cup { TermEnd(c, x.e, x.p) : x \in A })
ExpectedAt(c, T, root, f) ==
  { x.e : x \in { y \in Attempts(c, T, root) : y.p = f /\ TermEnd(c, y.e, y.p) < 0 } }
=============================================================================
