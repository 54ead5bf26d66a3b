---------------------------- MODULE ClassGrammars ----------------------------
(***************************************************************************)
(* Every grammar made of three small sets of characters: ranges, single    *)
(* characters and series over four characters of interest that are next to *)
(* each other, special to regular expressions or to ABNF, letters of both  *)
(* cases, or at a boundary of an encoding.  TLC enumerates them and prints *)
(* what the specification says of words around these characters; the lines *)
(* are replayed into the real code (vectors/).                             *)
(***************************************************************************)
EXTENDS Rules, Json, IOUtils

Windows == << <<0, 1, 2, 3>>, <<8, 9, 10, 11>>, <<12, 13, 14, 15>>, <<31, 32, 33, 34>>, <<35, 36, 37, 38>>,
              <<39, 40, 41, 42>>, <<43, 44, 45, 46>>, <<46, 47, 48, 49>>, <<57, 58, 59, 60>>,
              <<63, 64, 65, 66>>, <<89, 90, 91, 92>>, <<92, 93, 94, 95>>, <<95, 96, 97, 98>>,
              <<106, 107, 108, 8490>>, <<114, 115, 116, 383>>, <<122, 123, 124, 125>>, <<126, 127, 128, 129>>,
              <<45, 91, 93, 94>>, <<65, 90, 97, 122>>, <<75, 107, 8490, 8491>>, <<83, 115, 382, 383>>,
              <<201, 233, 234, 255>>, <<127, 128, 2047, 2048>>, <<55294, 55295, 57344, 57345>>,
              <<65534, 65535, 65536, 65537>>, <<1, 255, 256, 1114111>> >>

\* characters of window w within lo..hi positions, written in some way
Single(c) == IF c >= 32 /\ c <= 126 /\ c # 34 THEN Chr(<<c>>) ELSE Ser(<<c>>)
Ranges == << <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<3, 3>>, <<3, 4>>, <<4, 4>> >>
NE == 15
ElemAt(w, k) ==
  LET i == 1 + (k % NE)
  IN  IF i <= 10 THEN Rng(w[Ranges[i][1]], w[Ranges[i][2]])
      ELSE IF i <= 14 THEN Single(w[i - 10])
      ELSE Ser(<<w[2], w[3]>>)

Shapes == << "a/b/c", "(a/b)c", "a/*(b/c)" >>
AltOf(f, a, b, c) ==
  CASE f = "a/b/c" -> << <<One(a)>>, <<One(b)>>, <<One(c)>> >>
    [] f = "(a/b)c" -> << <<One(Grp(<< <<One(a)>>, <<One(b)>> >>)), One(c)>> >>
    [] f = "a/*(b/c)" -> << <<One(a)>>, <<Many(Grp(<< <<One(b)>>, <<One(c)>> >>))>> >>

Flip(c) == IF c \in 65..90 THEN c + 32 ELSE IF c \in 97..122 THEN c - 32 ELSE c
Around(w) == { c \in UNION { {w[i] - 1, w[i], w[i] + 1, Flip(w[i])} : i \in 1..4 } : IsScalar(c) }
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Listed(S \ {m})
Words(w) == << <<>> >> \o [i \in DOMAIN Listed(Around(w)) |-> <<Listed(Around(w))[i]>>]
            \o << <<w[1], w[2]>>, <<w[2], w[3]>>, <<w[3], w[2]>>, <<w[4], w[4]>>, <<w[1], w[4]>>, <<w[4], w[1]>>, <<w[2], w[3], w[1]>> >>
AllWords == TLCEval([i \in DOMAIN Windows |-> Words(Windows[i])])
AllOctets == TLCEval([i \in DOMAIN Windows |-> [j \in DOMAIN AllWords[i] |-> EncodeAll(AllWords[i][j])]])

Facts(alt, i) ==
  [ g |-> [s |-> alt], ws |-> AllWords[i],
    w |-> [j \in DOMAIN AllWords[i] |->
             LET c == Ctx([s |-> alt], AllOctets[i][j])
                 T == TLCEval(Reach(c, {"s"}))
             IN  IF c.n \notin T[0]["s"] THEN 0 ELSE Weights(c, {"s"}, T)[0]["s"][c.n]],
    cyc |-> FALSE, prod |-> TRUE ]

VARIABLES win, k
Total == NE * NE * NE
Lanes == 16
Init == win \in DOMAIN Windows /\ k \in 0..(Lanes - 1)
Next == /\ k < Total
        /\ \A f \in DOMAIN Shapes :
             LET w == Windows[win]
             IN  PrintT("VEC " \o ToJson(Facts(AltOf(Shapes[f], ElemAt(w, k), ElemAt(w, k \div NE), ElemAt(w, k \div (NE * NE))), win)))
        /\ k' = k + Lanes
        /\ win' = win
Spec == Init /\ [][Next]_<<win, k>>
=============================================================================
