---------------------------- MODULE SmallGrammars ----------------------------
(***************************************************************************)
(* Every grammar of a small family, with what the specification says of    *)
(* every short word.  TLC enumerates the family and prints one line per    *)
(* grammar; the lines are replayed into the real code (vectors/).          *)
(*                                                                         *)
(* A grammar has a rule s made of up to three repetitions in some shape,   *)
(* and, when s refers to it, a rule t out of a few.  Between them they     *)
(* hold every combination of left, right, hidden and mutual recursion,     *)
(* nullable elements, bounded and unbounded repetitions, groups and        *)
(* options of that size.                                                   *)
(***************************************************************************)
EXTENDS Rules, Json, IOUtils

Elems == << Chr(<<97>>), ChrS(<<98>>), Chr(<<>>), Ref("s"), Ref("t") >>
Bounds == << <<1, 1>>, <<0, Inf>>, <<1, Inf>>, <<0, 1>>, <<2, 2>> >>
NE == Len(Elems)
NB == Len(Bounds)
NR == NE * NB
RepAt(k) == LET b == Bounds[1 + (k % NB)] IN Rep(b[1], b[2], Elems[1 + ((k \div NB) % NE)])

\* what t is
Seconds == << << <<One(Chr(<<97>>))>> >>,
              << <<One(Chr(<<>>))>> >>,
              << <<One(Ref("s"))>> >>,
              << <<One(Chr(<<97>>))>>, <<One(Chr(<<>>))>> >>,
              << <<One(Ref("t")), One(Chr(<<98>>))>>, <<One(Chr(<<97>>))>> >>,
              << <<One(Ref("s")), One(Chr(<<98>>))>>, <<One(Opt(<< <<One(Ref("t"))>> >>)), One(Chr(<<97>>))>> >> >>

\* shapes of s; a, b, c are numbers of repetitions
Shapes == << [n |-> 1, f |-> "a"], [n |-> 2, f |-> "ab"], [n |-> 2, f |-> "a/b"],
             [n |-> 2, f |-> "*(ab)"], [n |-> 2, f |-> "[a]b"], [n |-> 2, f |-> "2(a/b)"], [n |-> 2, f |-> "1*[ab]"],
             [n |-> 3, f |-> "abc"], [n |-> 3, f |-> "ab/c"], [n |-> 3, f |-> "a/bc"] >>
AltOf(f, a, b, c) ==
  CASE f = "a" -> << <<a>> >>
    [] f = "ab" -> << <<a, b>> >>
    [] f = "a/b" -> << <<a>>, <<b>> >>
    [] f = "*(ab)" -> << <<Many(Grp(<< <<a, b>> >>))>> >>
    [] f = "[a]b" -> << <<One(Opt(<< <<a>> >>)), b>> >>
    [] f = "2(a/b)" -> << <<Rep(2, 2, Grp(<< <<a>>, <<b>> >>))>> >>
    [] f = "1*[ab]" -> << <<Rep(1, Inf, Opt(<< <<a, b>> >>))>> >>
    [] f = "abc" -> << <<a, b, c>> >>
    [] f = "ab/c" -> << <<a, b>>, <<c>> >>
    [] f = "a/bc" -> << <<a>>, <<b, c>> >>

Ab == {97, 98}
\* every word up to length 4, shortest first
RECURSIVE WordsOf(_)
WordsOf(n) == IF n = 0 THEN << <<>> >>
              ELSE LET P == WordsOf(n - 1)
                   IN  [i \in 1..(2 * Len(P)) |-> Append(P[(i + 1) \div 2], IF i % 2 = 1 THEN 97 ELSE 98)]
Words == WordsOf(0) \o WordsOf(1) \o WordsOf(2) \o WordsOf(3) \o WordsOf(4)

UsesT(alt) == "t" \in Refs(alt)

Facts(gr) ==
  LET names == ReachNames(gr, {"s"})
  IN  [ g |-> gr,
        w |-> [i \in DOMAIN Words |->
                 LET c == Ctx(gr, Words[i])
                     T == TLCEval(Reach(c, names))
                 IN  IF c.n \notin T[0]["s"] THEN 0 ELSE Weights(c, names, T)[0]["s"][c.n]],
        cyc |-> HasCycle(gr, "s"), prod |-> Productive(gr, "s") ]

Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)

VARIABLES sh, k
Lanes == 64
Pow(n) == CASE n = 1 -> NR [] n = 2 -> NR * NR [] n = 3 -> NR * NR * NR
Init == sh \in DOMAIN Shapes /\ k \in { x \in 0..(Lanes * Parts - 1) : x % Parts = Part }
Next == /\ k < Pow(Shapes[sh].n)
        /\ LET alt == AltOf(Shapes[sh].f, RepAt(k), RepAt(k \div NR), RepAt(k \div (NR * NR)))
               all == IF UsesT(alt) THEN { [s |-> alt, t |-> Seconds[i]] : i \in DOMAIN Seconds } ELSE {[s |-> alt]}
           IN  \A gr \in all : PrintT("VEC " \o ToJson(Facts(gr)))
        /\ k' = k + Lanes * Parts
        /\ sh' = sh
Spec == Init /\ [][Next]_<<sh, k>>
=============================================================================
