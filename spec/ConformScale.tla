---------------------------- MODULE ConformScale ----------------------------
(***************************************************************************)
(* Grammars and inputs of a size out of reach of the general definitions   *)
(* (Abnf): families whose language, number of derivations, derivation and  *)
(* diagnostic are given in closed form.  ScaleModel checks that these are  *)
(* what the general definitions say, for small sizes.                      *)
(*                                                                         *)
(* A family is a record p: fam its name, n its size, mn/mx bounds (-1: no  *)
(* upper one), lo..hi a range, w words.                                    *)
(***************************************************************************)
EXTENDS ConformEng

Low(s) == [i \in DOMAIN s |-> Fold(s[i])]
RECURSIVE CatTo(_, _)
CatTo(ws, k) == IF k = 0 THEN <<>> ELSE CatTo(ws, k - 1) \o ws[k]
Triples(ws) == [i \in 1..(3 * Len(ws)) |-> ws[(i - 1) \div 3 + 1][((i - 1) % 3) + 1]]
First(S) == CHOOSE x \in S : \A y \in S : x <= y

In(p, x) == x >= p.lo /\ x <= p.hi
Pair(s, i) == i < Len(s) /\ s[i] = 13 /\ s[i + 1] = 10       \* CRLF at i

-----------------------------------------------------------------------------
(* Languages.                                                              *)
IsWord(p, s) ==
  LET n == Len(s) IN
  CASE p.fam = "star"  -> \A i \in 1..n : In(p, s[i])
    [] p.fam = "cnt"   -> LET w == p.w[1]
                              l == Len(w)
                          IN  /\ n % l = 0 /\ n \div l >= p.mn /\ (p.mx < 0 \/ n \div l <= p.mx)
                              /\ \A i \in 1..n : Fold(s[i]) = Fold(w[((i - 1) % l) + 1])
    [] p.fam = "lines" -> /\ n = 0 \/ (n > 1 /\ Pair(s, n - 1))
                          /\ \A i \in 1..n : In(p, s[i]) \/ Pair(s, i) \/ (i > 1 /\ Pair(s, i - 1))
    [] p.fam = "nest"  -> /\ n % 2 = 1
                          /\ \A i \in 1..n : Fold(s[i]) = (IF 2 * i < n + 1 THEN 40 ELSE IF 2 * i = n + 1 THEN 120 ELSE 41)
    [] p.fam \in {"left", "right", "catalan"} -> n > 0 /\ \A i \in 1..n : Fold(s[i]) = 120
    [] p.fam \in {"dup", "fib"} -> \A i \in 1..n : Fold(s[i]) = 120
    [] p.fam \in {"alt", "fan", "incr"} -> LET t == Low(s) IN \E i \in DOMAIN p.w : Low(p.w[i]) = t
    [] p.fam \in {"cat", "rules"} -> Low(s) = Low(Triples(p.w))
    [] p.fam = "lit"   -> Low(s) = Low(p.w[1])
    [] p.fam = "num"   -> s = p.w[1]
    [] p.fam = "twn"   -> s = p.w[1] \/ s = <<45>> \o p.w[2]
    [] p.fam = "twl"   -> Low(s) = Low(p.w[1]) \/ Low(s) = <<45>> \o Low(p.w[2])
    [] p.fam = "twr"   -> Low(s) = <<120>> \/ Low(s) = <<45, 121>>
    [] p.fam = "grp"   -> Low(s) = <<120>>
    [] p.fam = "opt"   -> s = <<>> \/ Low(s) = <<120>>

-----------------------------------------------------------------------------
(* Numbers of derivations, modulo m.                                       *)
RECURSIVE Pow2(_, _), FibSeq(_, _, _, _), CatSeq(_, _, _)
Pow2(n, m) == IF n = 0 THEN 1 ELSE (2 * Pow2(n - 1, m)) % m
FibSeq(a, b, n, m) == IF n = 0 THEN a ELSE FibSeq(b, (a + b) % m, n - 1, m)
RECURSIVE Conv(_, _, _, _)
Conv(C, k, i, m) == IF i > k THEN 0 ELSE (C[i] * C[k + 1 - i] + Conv(C, k, i + 1, m)) % m
CatSeq(C, n, m) == IF Len(C) = n THEN C ELSE CatSeq(Append(C, Conv(C, Len(C), 1, m)), n, m)
Ways(p, s, m) ==
  IF ~IsWord(p, s) THEN 0
  ELSE CASE p.fam = "dup"     -> Pow2(Len(s), m)
         [] p.fam = "fib"     -> FibSeq(1, 1, Len(s), m)
         [] p.fam = "catalan" -> CatSeq(<<1>>, Len(s), m)[Len(s)]
         [] p.fam = "opt"     -> IF s = <<>> THEN p.n % m ELSE 1
         [] OTHER             -> 1
Several(p, s) == IsWord(p, s) /\ (CASE p.fam \in {"dup"}     -> Len(s) > 0
                                    [] p.fam \in {"fib"}     -> Len(s) > 1
                                    [] p.fam \in {"catalan"} -> Len(s) > 2
                                    [] p.fam \in {"opt"}     -> s = <<>> /\ p.n > 1
                                    [] OTHER                 -> FALSE)

-----------------------------------------------------------------------------
(* The derivation, as its nodes in preorder: <<rule (-1: a terminal),      *)
(* start, end, number of children>>.                                       *)
Derivation(p, s) ==
  LET n == Len(s)
      leaf(a, b) == <<-1, a, b, 0>>
      leaves(l) == [i \in 1..(n \div l) |-> leaf((i - 1) * l, i * l)]
  IN
  CASE p.fam = "star" -> <<<<0, 0, n, n>>>> \o leaves(1)
    [] p.fam = "cnt"  -> LET l == Len(p.w[1]) IN <<<<0, 0, n, n \div l>>>> \o leaves(l)
    [] p.fam = "cat"  -> <<<<0, 0, n, n \div 3>>>> \o leaves(3)
    [] p.fam = "lines" -> LET keep == SelectSeq([i \in 1..n |-> leaf(i - 1, IF Pair(s, i) THEN i + 1 ELSE i)],
                                                LAMBDA t : ~(t[2] > 0 /\ Pair(s, t[2])))
                          IN  <<<<0, 0, n, Len(keep)>>>> \o keep
    [] p.fam = "nest" -> LET k == n \div 2
                         IN  [i \in 1..(2 * k) |-> LET d == (i - 1) \div 2 IN IF i % 2 = 1 THEN <<0, d, n - d, 3>> ELSE leaf(d, d + 1)]
                             \o <<<<0, k, k + 1, 1>>, leaf(k, k + 1)>>
                             \o [i \in 1..k |-> leaf(k + i, k + i + 1)]
    [] p.fam = "left" -> [i \in 1..n |-> <<0, 0, n + 1 - i, IF i = n THEN 1 ELSE 2>>] \o leaves(1)
    [] p.fam = "right" -> [i \in 1..(2 * n) |-> LET d == (i - 1) \div 2
                                                IN  IF i % 2 = 0 THEN leaf(d, d + 1) ELSE <<0, d, n, IF d = n - 1 THEN 1 ELSE 2>>]
    [] p.fam \in {"alt", "lit", "num", "grp", "incr"} -> <<<<0, 0, n, 1>>, leaf(0, n)>>
    [] p.fam \in {"twn", "twl"} -> IF Low(s) = Low(p.w[1]) THEN <<<<0, 0, n, 1>>, leaf(0, n)>> ELSE <<<<0, 0, n, 2>>, leaf(0, 1), leaf(1, n)>>
    [] p.fam = "twr" -> IF n = 1 THEN <<<<0, 0, 1, 1>>, <<0, 0, 1, 1>>, leaf(0, 1)>> ELSE <<<<0, 0, 2, 2>>, leaf(0, 1), <<0, 1, 2, 1>>, leaf(1, 2)>>
    [] p.fam = "rules" -> [i \in 1..(2 * Len(p.w)) |-> LET d == (i - 1) \div 2
                                                        IN  IF i % 2 = 0 THEN leaf(3 * d, 3 * d + 3)
                                                            ELSE <<d, 3 * d, n, IF d = Len(p.w) - 1 THEN 1 ELSE 2>>]
    [] p.fam = "fan" -> <<<<0, 0, n, 1>>, <<CHOOSE i \in DOMAIN p.w : Low(p.w[i]) = Low(s), 0, n, 1>>, leaf(0, n)>>

-----------------------------------------------------------------------------
(* Where an input goes wrong, and what would do there.                     *)
ChrOf(v) == [t |-> "chr", s |-> FALSE, v |-> v]
RngOf(p) == [t |-> "rng", lo |-> p.lo, hi |-> p.hi]
FailAt(p, s) ==
  LET n == Len(s) IN
  CASE p.fam = "star"  -> First({ i \in 1..n : ~In(p, s[i]) }) - 1
    [] p.fam = "lines" -> LET off == { i \in 1..n : ~In(p, s[i]) /\ ~Pair(s, i) /\ ~(i > 1 /\ Pair(s, i - 1)) }
                          IN  IF off = {} THEN n ELSE First(off) - 1
    [] p.fam = "nest"  -> LET x == First({ i \in 1..n : s[i] # 40 } \cup {n + 1})
                              y == First({ i \in (x + 1)..n : s[i] # 41 } \cup {n + 1})
                          IN  IF x > n \/ Fold(s[x]) # 120 THEN x - 1 ELSE IF y > 2 * x THEN 2 * x - 1 ELSE y - 1
    [] p.fam \in {"alt", "fan"} -> IF n > 3 /\ IsWord(p, SubSeq(s, 1, 3)) THEN 3 ELSE 0
    [] p.fam \in {"cat", "rules"} ->
         LET w == Triples(p.w)
         IN  3 * ((First({ i \in 1..n : i > Len(w) \/ Fold(s[i]) # Fold(w[i]) } \cup {n + 1}) - 1) \div 3)
ExpectedThere(p, s, f) ==
  CASE p.fam = "star"  -> {RngOf(p)}
    [] p.fam = "lines" -> {RngOf(p), [t |-> "ser", v |-> <<13, 10>>]}
    [] p.fam = "nest"  -> IF \A i \in 1..f : s[i] = 40 THEN {ChrOf(<<40>>), ChrOf(<<120>>)} ELSE IF IsWord(p, SubSeq(s, 1, f)) THEN {} ELSE {ChrOf(<<41>>)}
    [] p.fam \in {"alt", "fan"} -> IF f > 0 THEN {} ELSE { ChrOf(p.w[i]) : i \in DOMAIN p.w }
    [] p.fam \in {"cat", "rules"} -> IF f = 3 * Len(p.w) THEN {} ELSE {ChrOf(p.w[(f \div 3) + 1])}

-----------------------------------------------------------------------------
(* The rules, as read.                                                     *)
RECURSIVE Digits(_, _), Nest(_, _)
Digits(i, b) == LET d == i % b
                    c == <<IF d < 10 THEN 48 + d ELSE 55 + d>>
                IN  IF i < b THEN c ELSE Digits(i \div b, b) \o c
Once(e) == [mn |-> 1, mx |-> 1, e |-> e]
Just(e) == <<<<Once(e)>>>>
RuleName(i) == <<114>> \o Digits(i, 10)
RefTo(i) == [t |-> "ref", n |-> RuleName(i)]
Hex(v) == Digits(v, 16)
RngText(p) == [t |-> "rng", b |-> 120, d |-> <<Hex(p.lo), Hex(p.hi)>>]
Nest(t, k) == [t |-> t, a |-> IF k = 1 THEN Just(ChrOf(<<120>>)) ELSE Just(Nest(t, k - 1))]
Rule(nm, a) == [key |-> nm, n |-> nm, a |-> a]
AsRead(p) ==
  LET words == [i \in DOMAIN p.w |-> ChrOf(p.w[i])] IN
  CASE p.fam = "star" -> {Rule(<<97>>, <<<<[mn |-> 0, mx |-> -1, e |-> RngText(p)]>>>>)}
    [] p.fam = "cnt"  -> {Rule(<<97>>, <<<<[mn |-> p.mn, mx |-> p.mx, e |-> words[1]]>>>>)}
    [] p.fam \in {"alt", "incr"} -> {Rule(<<97>>, [i \in DOMAIN p.w |-> <<Once(words[i])>>])}
    [] p.fam = "cat"  -> {Rule(<<97>>, <<[i \in DOMAIN p.w |-> Once(words[i])]>>)}
    [] p.fam = "lit"  -> {Rule(<<97>>, Just(words[1]))}
    [] p.fam = "num"  -> {Rule(<<97>>, Just([t |-> "ser", b |-> 120, d |-> [i \in DOMAIN p.w[1] |-> Hex(p.w[1][i])]]))}
    [] p.fam \in {"grp", "opt"} -> {Rule(<<97>>, Just(Nest(p.fam, p.n)))}
    [] p.fam = "twn"  -> LET ser(w) == [t |-> "ser", b |-> 120, d |-> [i \in DOMAIN w |-> Hex(w[i])]]
                         IN  {Rule(<<97>>, <<<<Once(ser(p.w[1]))>>, <<Once(ChrOf(<<45>>)), Once(ser(p.w[2]))>>>>)}
    [] p.fam = "twl"  -> {Rule(<<97>>, <<<<Once(words[1])>>, <<Once(ChrOf(<<45>>)), Once(words[2])>>>>)}
    [] p.fam = "twr"  -> LET to(i) == [t |-> "ref", n |-> p.w[i]]
                         IN  {Rule(<<97>>, <<<<Once(to(1))>>, <<Once(ChrOf(<<45>>)), Once(to(2))>>>>),
                              Rule(p.w[1], Just(ChrOf(<<120>>))), Rule(p.w[2], Just(ChrOf(<<121>>)))}
    [] p.fam = "rules" -> { Rule(RuleName(i - 1), IF i = Len(p.w) THEN Just(words[i]) ELSE <<<<Once(words[i]), Once(RefTo(i))>>>>) : i \in DOMAIN p.w }
    [] p.fam = "fan" -> {Rule(RuleName(0), [i \in DOMAIN p.w |-> <<Once(RefTo(i))>>])}
                        \cup { Rule(RuleName(i), Just(words[i])) : i \in DOMAIN p.w }
CoreEdges == Cardinality(UNION { { <<a, b>> : b \in Refs(Core[a]) } : a \in DOMAIN Core })
Edges(p) == CoreEdges + IF p.fam = "rules" THEN Len(p.w) - 1 ELSE Len(p.w)

-----------------------------------------------------------------------------
(* The octets that may follow a prefix.                                    *)
Both(c) == IF c >= 97 /\ c <= 122 THEN {c, c - 32} ELSE {c}
NextOf(p, s) ==
  LET n == Len(s)
      t == Low(s)
      along(w) == IF n < Len(w) /\ \A i \in 1..n : t[i] = Fold(w[i]) THEN Both(w[n + 1]) ELSE {}
  IN
  CASE p.fam = "star"  -> IF \A i \in 1..n : In(p, s[i]) THEN p.lo..p.hi ELSE {}
    [] p.fam = "cnt"   -> LET w == p.w[1]
                              l == Len(w)
                          IN  IF (p.mx < 0 \/ n < p.mx * l) /\ \A i \in 1..n : t[i] = w[((i - 1) % l) + 1] THEN Both(w[(n % l) + 1]) ELSE {}
    [] p.fam = "lines" -> LET ok(m) == \A i \in 1..m : In(p, s[i]) \/ (i < m /\ Pair(s, i)) \/ (i > 1 /\ Pair(s, i - 1))
                          IN  IF ok(n) THEN (p.lo..p.hi) \cup {13}
                              ELSE IF n > 0 /\ s[n] = 13 /\ ok(n - 1) THEN {10} ELSE {}
    [] p.fam \in {"alt", "fan", "incr"} -> UNION { along(p.w[i]) : i \in DOMAIN p.w }
    [] p.fam \in {"cat", "rules"} -> along(Triples(p.w))
    [] p.fam = "lit" -> along(p.w[1])
    [] p.fam = "twl" -> along(p.w[1]) \cup along(<<45>> \o p.w[2])
    [] p.fam = "twr" -> along(<<120>>) \cup along(<<45, 121>>)
    [] p.fam = "twn" -> LET go(w) == IF n < Len(w) /\ \A i \in 1..n : s[i] = w[i] THEN {w[n + 1]} ELSE {}
                        IN  go(p.w[1]) \cup go(<<45>> \o p.w[2])
    [] p.fam = "num" -> LET w == p.w[1] IN IF n < Len(w) /\ \A i \in 1..n : s[i] = w[i] THEN {w[n + 1]} ELSE {}

-----------------------------------------------------------------------------
(* The words a reader enumerates: all of them, once per trail.             *)
Letters(w) == Cardinality({ i \in DOMAIN w : Fold(w[i]) >= 97 /\ Fold(w[i]) <= 122 })
Cases(w) == 2 ^ Letters(w)
RECURSIVE SumCases(_, _), ProdCases(_, _)
SumCases(ws, k) == IF k = 0 THEN 0 ELSE SumCases(ws, k - 1) + Cases(ws[k])
ProdCases(ws, k) == IF k = 0 THEN 1 ELSE ProdCases(ws, k - 1) * Cases(ws[k])
Distinct(p) ==
  CASE p.fam \in {"alt", "fan", "incr", "lit", "twl"} -> SumCases(p.w, Len(p.w))
    [] p.fam \in {"cat", "rules"} -> ProdCases(p.w, Len(p.w))
    [] p.fam = "num" -> 1
    [] p.fam = "twn" -> 2
    [] p.fam = "twr" -> 4
    [] p.fam = "grp" -> 2
    [] p.fam = "opt" -> 3
Size(p) == Distinct(p)
RECURSIVE AllCases(_)
AllCases(w) == IF w = <<>> THEN {<<>>} ELSE { <<c>> \o t : c \in Both(Fold(Head(w))), t \in AllCases(Tail(w)) }
\* what a cover covers: every casing of every literal, where it stands
Casings(p) ==
  CASE p.fam \in {"cat", "rules"} -> UNION { { <<3 * (i - 1), c>> : c \in AllCases(p.w[i]) } : i \in DOMAIN p.w }
    [] p.fam \in {"alt", "fan", "incr", "lit"} -> UNION { { <<0, c>> : c \in AllCases(p.w[i]) } : i \in DOMAIN p.w }
    [] p.fam = "num" -> {<<0, p.w[1]>>}
    [] p.fam = "twn" -> {<<0, p.w[1]>>, <<0, <<45>> \o p.w[2]>>}
    [] p.fam = "twl" -> { <<0, c>> : c \in AllCases(p.w[1]) } \cup { <<0, <<45>> \o c>> : c \in AllCases(p.w[2]) }
    [] p.fam = "twr" -> { <<0, c>> : c \in {<<120>>, <<88>>, <<45, 121>>, <<45, 89>>} }
    [] p.fam = "grp" -> { <<0, c>> : c \in {<<120>>, <<88>>} }
    [] p.fam = "opt" -> { <<0, c>> : c \in {<<>>, <<120>>, <<88>>} }
Covered(p, y, W) == IF p.fam \in {"cat", "rules"} THEN \E w \in W : SubSeq(w, y[1] + 1, y[1] + 3) = y[2]
                    ELSE y[2] \in W

-----------------------------------------------------------------------------
BadSc(k) ==
  LET p == k.par
      o == k.obs
      I == DOMAIN k.ins
      rules(gs) == { gs[i] : i \in DOMAIN gs }
      missing == (p.asp \in {"iv", "re", "nx", "gp"} /\ Len(o.v) # Len(k.ins)) \/ (p.asp = "pf" /\ Len(o.f) # Len(k.ins))
                 \/ (p.asp = "ct" /\ Len(o.fc) # Len(k.ins)) \/ (p.asp = "tr" /\ Len(o.ft) # Len(k.ins)) \/ (p.asp = "dg" /\ Len(o.d) # Len(k.ins))
  IN
  IF o.x # "" THEN {<<o.x>>}
  ELSE IF missing THEN {<<"answers missing">>}
  ELSE CASE
     p.asp = "iv" -> { <<i, "recognition">> : i \in { j \in I : o.v[j] # IsWord(p, k.ins[j]) } }
  [] p.asp = "gp" ->                                            \* generated parsers
       { <<o.k[i]>> : i \in DOMAIN o.k }
       \cup UNION { LET s == k.ins[i]
                        d == IsWord(p, s)
                        want == <<Ways(p, s, 30011), Ways(p, s, 32003), IF d THEN 1 ELSE 0>>
                        one == d /\ ~Several(p, s)
                    IN  (IF o.v[i] # d THEN {<<i, "validity">>} ELSE {})
                        \cup (IF o.fc[i] # want THEN {<<i, "count", o.fc[i], want>>} ELSE {})
                        \cup (IF o.fa[i] # Several(p, s) THEN {<<i, "ambiguity">>} ELSE {})
                        \cup (IF one /\ p.fam \notin {"opt", "dup", "fib", "catalan"} /\ o.ft[i] # Derivation(p, s) THEN {<<i, "tree">>} ELSE {})
                  : i \in I }
  [] p.asp = "re" -> { <<i, "match">> : i \in { j \in I : o.v[j] # IsWord(p, k.ins[j]) } }
  [] p.asp = "pf" -> { <<i, "forest validity">> : i \in { j \in I : o.f[j] # IsWord(p, k.ins[j]) } }
                     \cup { <<i, "subtree set validity">> : i \in { j \in I : o.b[j] # IsWord(p, k.ins[j]) } }
  [] p.asp = "ct" ->
       UNION { LET s == k.ins[i]
                   want == <<Ways(p, s, 30011), Ways(p, s, 32003), IF IsWord(p, s) THEN 1 ELSE 0>>
               IN  (IF o.fc[i] # want THEN {<<i, "forest count", o.fc[i], want>>} ELSE {})
                   \cup (IF o.bc[i] # want THEN {<<i, "subtree set count", o.bc[i], want>>} ELSE {})
                   \cup (IF o.fa[i] # Several(p, s) THEN {<<i, "forest ambiguity">>} ELSE {})
                   \cup (IF o.ba[i] # Several(p, s) THEN {<<i, "subtree set ambiguity">>} ELSE {})
             : i \in I }
  [] p.asp = "tr" ->
       UNION { LET s == k.ins[i]
                   want == TLCEval(IF IsWord(p, s) THEN Derivation(p, s) ELSE <<>>)
               IN  (IF o.ft[i] # want THEN {<<i, "forest tree">>} ELSE {})
                   \cup (IF o.bt[i] # want THEN {<<i, "subtree set tree">>} ELSE {})
             : i \in I }
  [] p.asp = "dg" ->
       UNION { LET s == k.ins[i]
                   f == FailAt(p, s)
               IN  IF IsWord(p, s) THEN (IF o.d[i].has THEN {<<i, "diagnostic of a valid input">>} ELSE {})
                   ELSE IF ~o.d[i].has THEN {<<i, "no diagnostic">>}
                   ELSE { <<i>> \o x : x \in DiagBad(s, f, ExpectedThere(p, s, f), o.d[i]) }
             : i \in I }
  [] p.asp \in {"rd", "pp"} ->
       LET want == TLCEval(AsRead(p))
       IN  (IF rules(o.g) # want THEN {<<"another grammar">>} ELSE {})
           \cup (IF p.asp = "pp" /\ rules(o.gs) # want THEN {<<"the rendering denotes another grammar">>} ELSE {})
           \cup (IF p.asp = "pp" /\ rules(o.gp) # want THEN {<<"the pretty rendering denotes another grammar">>} ELSE {})
  [] p.asp = "va" -> IF o.k # <<p.bad, CASE p.bad \in {"dep", "ext"} -> "zz" [] p.bad = "dup" -> "r" \o ToString(p.at) [] OTHER -> "">>
                     THEN {<<"should be", p.bad, "is", o.k>>} ELSE {}
  [] p.asp = "cy" -> (IF o.v # <<p.fam = "ring", p.fam # "ring">> THEN {<<"cycle", o.v>>} ELSE {})
                     \cup (IF o.k # <<ToString(Edges(p))>> THEN {<<"dependencies", o.k, Edges(p)>>} ELSE {})
  [] p.asp \in {"gw", "ag", "tw"} ->
       (IF o.ws = <<>> THEN {<<"no word">>} ELSE {})
       \cup { <<"not a word", i>> : i \in { j \in DOMAIN o.ws : ~IsWord(p, o.ws[j]) } }
  [] p.asp = "er" ->                                            \* a reader
       LET W == TLCEval({ o.ws[j] : j \in DOMAIN o.ws })
       IN  { <<"not a word", w>> : w \in { v \in W : ~IsWord(p, v) } }
           \cup (IF p.bad = "compact" THEN { <<"not covered", x>> : x \in { y \in Casings(p) : ~Covered(p, y, W) } }
                 ELSE (IF Len(o.ws) # Size(p) THEN {<<"number of words", Len(o.ws), Size(p)>>} ELSE {})
                      \cup (IF Cardinality(W) # Distinct(p) THEN {<<"number of different words", Cardinality(W), Distinct(p)>>} ELSE {}))
  [] p.asp = "nx" ->
       UNION { LET s == k.ins[i]
                   next == TLCEval(NextOf(p, s))
               IN  (IF o.v[i] # IsWord(p, s) THEN {<<i, "complete">>} ELSE {})
                   \cup (IF { o.ws[i][j] : j \in DOMAIN o.ws[i] } # next THEN {<<i, "next octets">>} ELSE {})
                   \cup (IF ~o.f[i] THEN {<<i, "declines to analyse">>} ELSE {})
             : i \in I }
=============================================================================
