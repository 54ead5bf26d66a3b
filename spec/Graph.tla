-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Transition graphs: gx = [e |-> elements of the nodes 1..n,              *)
(*   nx |-> successors of each node, en |-> entries, fi |-> ends];         *)
(* node 0 is the empty node (an entry and end at once, without successor). *)
(***************************************************************************)
EXTENDS Rules

RangeOf(s) == { s[i] : i \in DOMAIN s }
Nodes(gx)  == DOMAIN gx.e
Edges(gx)  == UNION { { <<n, m>> : m \in RangeOf(gx.nx[n]) } : n \in Nodes(gx) }
WellFormed(gx) == \A n \in Nodes(gx) : RangeOf(gx.nx[n]) \subseteq Nodes(gx)
HasEmpty(gx) == 0 \in RangeOf(gx.en) /\ 0 \in RangeOf(gx.fi)

\* Walks over an input: pairs <<node, offset after it>>.
GInto(c, T, gx, m, p) == { <<m, q>> : q \in ElemEnds(c, T, gx.e[m], p) }
RECURSIVE GWalk(_, _, _, _, _)
GWalk(c, T, gx, seen, todo) ==
  IF todo = {} THEN seen
  ELSE LET N == TLCEval(UNION { UNION { GInto(c, T, gx, m, s[2]) : m \in RangeOf(gx.nx[s[1]]) } : s \in todo } \ seen)
       IN  GWalk(c, T, gx, seen \cup N, N)
GStates(c, T, gx) ==
  LET S == UNION { GInto(c, T, gx, m, 0) : m \in RangeOf(gx.en) \ {0} } IN GWalk(c, T, gx, S, S)
Spells(c, T, gx) ==
  \/ c.n = 0 /\ HasEmpty(gx)
  \/ \E s \in GStates(c, T, gx) : s[2] = c.n /\ s[1] \in RangeOf(gx.fi)

-----------------------------------------------------------------------------
(* Distances to an end, and what lies on an entry-to-end walk.             *)

RECURSIVE DistFrom(_, _, _, _)
DistFrom(gx, D, S, k) ==      \* D: node -> distance, S: nodes at distance k - 1
  LET N == { n \in Nodes(gx) \ DOMAIN D : RangeOf(gx.nx[n]) \cap S # {} }
  IN  IF N = {} THEN D ELSE DistFrom(gx, TLCEval([n \in N |-> k] @@ D), N, k + 1)
Dist(gx) == LET F == RangeOf(gx.fi) \cap Nodes(gx) IN DistFrom(gx, [n \in F |-> 0], F, 1)

RECURSIVE FromEntries(_, _)
FromEntries(gx, S) == LET N == S \cup UNION { RangeOf(gx.nx[n]) : n \in S }
                      IN  IF N = S THEN S ELSE FromEntries(gx, TLCEval(N))
Live(gx) == FromEntries(gx, RangeOf(gx.en) \cap Nodes(gx)) \cap DOMAIN Dist(gx)

-----------------------------------------------------------------------------
(* Variations of a node: the strings it may stand for.                     *)

MinI(a, b) == IF a <= b THEN a ELSE b
ScalarCount(lo, hi) ==
  LET h == MinI(hi, MaxRune)
      all == h - lo + 1
      sur == MinI(h, 57343) - MaxI(lo, 55296) + 1
  IN  IF lo > h THEN 0 ELSE all - MaxI(0, sur)
Scalars(lo, hi) == { r \in lo..MinI(hi, MaxRune) : ~IsSurrogate(r) }
Casings(x) == IF x >= 65 /\ x <= 90 THEN {x, x + 32} ELSE IF x >= 97 /\ x <= 122 THEN {x, x - 32} ELSE {x}
VarCount(el) ==
  CASE el.t = "chr" -> IF el.s THEN 1
                       ELSE LET k == Cardinality({ i \in DOMAIN el.v : Cardinality(Casings(el.v[i])) = 2 })
                            IN  IF k > 20 THEN 1048576 ELSE 2 ^ k
    [] el.t = "rng" -> ScalarCount(el.lo, el.hi)
    [] OTHER        -> 1
RECURSIVE CasedWords(_, _)
CasedWords(v, k) == IF k > Len(v) THEN {<<>>}
                    ELSE { Encode(x) \o w : x \in Casings(v[k]), w \in CasedWords(v, k + 1) }
Vars(el) ==
  CASE el.t = "chr" -> IF el.s THEN {EncodeAll(el.v)} ELSE CasedWords(el.v, 1)
    [] el.t = "ser" -> {EncodeAll(el.v)}
    [] el.t = "rng" -> { Encode(r) : r \in Scalars(el.lo, el.hi) }
    [] OTHER        -> {}

-----------------------------------------------------------------------------
(* Trails: entry-to-end walks that use each edge at most once.             *)

TrailEdges(t) == { <<t[i], t[i + 1]>> : i \in 1..(Len(t) - 1) }
RECURSIVE TrailsFrom(_, _, _, _)
TrailsFrom(gx, live, acc, front) ==
  IF front = {} \/ Cardinality(acc) > 400 \/ Cardinality(front) > 400 THEN [ts |-> acc, done |-> front = {}]
  ELSE LET N == TLCEval(UNION { { Append(t, m) : m \in { x \in RangeOf(gx.nx[t[Len(t)]]) \cap live :
                                         <<t[Len(t)], x>> \notin TrailEdges(t) } } : t \in front })
       IN  TrailsFrom(gx, live, acc \cup { t \in N : t[Len(t)] \in RangeOf(gx.fi) }, N)
Trails(gx) ==
  LET live == TLCEval(Live(gx))
      S == { <<n>> : n \in RangeOf(gx.en) \cap live }
  IN  TrailsFrom(gx, live, { t \in S : t[1] \in RangeOf(gx.fi) }, S)

CapMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > 100000 \div b THEN 100000 ELSE a * b
RECURSIVE TrailCount(_, _, _)
TrailCount(gx, t, k) == IF k > Len(t) THEN 1 ELSE CapMul(VarCount(gx.e[t[k]]), TrailCount(gx, t, k + 1))
RECURSIVE SumCount(_, _, _)
SumCount(gx, S, acc) == IF S = {} \/ acc > 100000 THEN acc
                        ELSE LET t == CHOOSE x \in S : TRUE IN SumCount(gx, S \ {t}, acc + TrailCount(gx, t, 1))
\* choices of a variation per node of the trail
RECURSIVE TrailWords(_, _, _)
TrailWords(gx, t, k) == IF k > Len(t) THEN {<<>>}
                        ELSE { <<v>> \o r : v \in Vars(gx.e[t[k]]), r \in TrailWords(gx, t, k + 1) }
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Join(Tail(q))

-----------------------------------------------------------------------------
(* What an accepting walk over an input may go through: the edges, and the *)
(* nodes with the string each stands for.                                  *)

Covered(c, T, gx) ==
  LET F == TLCEval(GStates(c, T, gx))
      \* states from which the end of the input is reached in an end
      RECURSIVE Back(_, _)
      Back(acc, todo) ==
        IF todo = {} THEN acc
        ELSE LET N == TLCEval({ s \in F \ acc : \E t \in todo : t[1] \in RangeOf(gx.nx[s[1]]) /\ t \in GInto(c, T, gx, t[1], s[2]) })
             IN  Back(acc \cup N, N)
      E == { s \in F : s[2] = c.n /\ s[1] \in RangeOf(gx.fi) }
      B == TLCEval(Back(E, E))
      step == { <<s, t>> \in B \X B : t[1] \in RangeOf(gx.nx[s[1]]) /\ t \in GInto(c, T, gx, t[1], s[2]) }
  IN  [ edges |-> { <<x[1][1], x[2][1]>> : x \in step },
        vars  |-> { <<x[2][1], x[1][2], x[2][2]>> : x \in step }
                  \cup { <<s[1], 0, s[2]>> : s \in { y \in B : y[1] \in RangeOf(gx.en) /\ y \in GInto(c, T, gx, y[1], 0) } } ]

-----------------------------------------------------------------------------
(* The graph generator: free walks, kept finite by limits.  Once a limit   *)
(* is hit, only shortest ways to an end are taken.                         *)

RECURSIVE Finish(_, _, _, _, _, _), Free(_, _, _, _, _, _, _, _)
Finish(c, T, gx, D, n, p) ==
  IF D[n] = 0 THEN p = c.n
  ELSE \E m \in RangeOf(gx.nx[n]) : /\ m \in DOMAIN D /\ D[m] = D[n] - 1
                                    /\ \E s \in GInto(c, T, gx, m, p) : Finish(c, T, gx, D, m, s[2])
Free(c, T, gx, D, lim, path, n, p) ==
  LET succ == { m \in RangeOf(gx.nx[n]) : m \in DOMAIN D }
      used(m) == Cardinality({ i \in 1..(Len(path) - 1) : path[i] = n /\ path[i + 1] = m })
      free == { m \in succ : used(m) < lim.reps }
      over == p >= lim.len \/ Len(path) - 1 >= lim.steps
  IN  IF succ = {} THEN p = c.n /\ D[n] = 0
      ELSE IF over \/ free = {} THEN
             \* steered one step towards the end (and so on, as the limit stays hit
             \* for the length and the steps)
             IF D[n] = 0 THEN p = c.n
             ELSE IF over THEN Finish(c, T, gx, D, n, p)
             ELSE LET best == CHOOSE d \in { D[m] : m \in succ } : \A m \in succ : d <= D[m]
                  IN  \E m \in { x \in succ : D[x] = best } :
                         \E s \in GInto(c, T, gx, m, p) : Free(c, T, gx, D, lim, Append(path, m), m, s[2])
      ELSE \/ D[n] = 0 /\ p = c.n
           \/ /\ ~(lim.lazy /\ D[n] = 0)      \* nothing to choose with: stops at the first end
              /\ \E m \in free : \E s \in GInto(c, T, gx, m, p) : Free(c, T, gx, D, lim, Append(path, m), m, s[2])
Steered(c, T, gx, lim) ==
  LET D == TLCEval(Dist(gx))
  IN  \/ c.n = 0 /\ HasEmpty(gx)
      \/ \E m \in RangeOf(gx.en) \cap DOMAIN D : \E s \in GInto(c, T, gx, m, 0) : Free(c, T, gx, D, lim, <<m>>, m, s[2])
=============================================================================
