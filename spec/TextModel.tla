------------------------------ MODULE TextModel ------------------------------
(***************************************************************************)
(* Every short text: the deterministic reader of AbnfText accepts exactly  *)
(* what the meta-grammar of the RFC derives, and the meta-grammar gives    *)
(* each of these texts a single derivation.                                *)
(*                                                                         *)
(* A state is a text under construction; Frame tells what surrounds it.    *)
(***************************************************************************)
EXTENDS Abnf, Meta, IOUtils

Rd == INSTANCE AbnfText

Max == atoi(IOEnv.MAXLEN)
Symbols == {97, 61, 47, 34, 37, 120, 115, 49, 45, 46, 42, 40, 41, 91, 93, 60, 62, 32, 59, 13, 10}
\* [a, b): the text is put between a and b
Frames == << [a |-> <<>>, b |-> <<>>],
             [a |-> <<97, 61>>, b |-> <<13, 10>>],
             [a |-> <<97, 61, 34, 34>>, b |-> <<13, 10>>],
             [a |-> <<97, 61, 37, 120, 49>>, b |-> <<13, 10>>],
             [a |-> <<97, 61, 40, 97>>, b |-> <<41, 13, 10>>],
             [a |-> <<97>>, b |-> <<97, 13, 10>>],
             [a |-> <<97, 61, 97, 13, 10>>, b |-> <<13, 10>>] >>

\* longer texts, explored by one edit anywhere
Long == << <<97, 32, 61, 37, 105, 34, 98, 34, 32, 47, 40, 99, 41, 13, 10, 97, 61, 47, 32, 100, 13, 10>>,
           <<97, 61, 32, 49, 42, 50, 91, 98, 47, 37, 120, 49, 46, 70, 93, 32, 59, 99, 13, 10, 32, 98, 13, 10>>,
           <<97, 61, 42, 98, 32, 60, 112, 62, 32, 37, 100, 49, 45, 57, 13, 10, 59, 99, 13, 10, 32, 98, 61, 37, 115, 34, 34, 13, 10, 13, 10>> >>

\* frame 0: mid is the text; it is made by an edit at position at of a long one
VARIABLES frame, mid, at
Init == \/ frame \in DOMAIN Frames /\ mid = <<>> /\ at = 0
        \/ IOEnv.EDITS = "1" /\ frame = 0 /\ (\E i \in DOMAIN Long : mid = Long[i]) /\ at = 0

Cut(q, i, j, m) == SubSeq(q, 1, i) \o m \o SubSeq(q, j, Len(q))
Edits(q, i) == { Cut(q, i - 1, i, <<x>>) : x \in Symbols }                                          \* insert
               \cup (IF i > Len(q) THEN {} ELSE { Cut(q, i - 1, i + 1, <<x>>) : x \in Symbols }     \* replace
                                                \cup { Cut(q, i - 1, i + 1, <<>>) })                \* remove

Next == \/ frame > 0 /\ Len(mid) < Max /\ (\E x \in Symbols : mid' = Append(mid, x)) /\ UNCHANGED <<frame, at>>
        \/ frame = 0 /\ at = 0 /\ at' \in 1..(Len(mid) + 1) /\ UNCHANGED <<frame, mid>>
        \/ frame = 0 /\ at > 0 /\ mid' \in Edits(mid, at) /\ at' = -1 /\ UNCHANGED frame
Spec == Init /\ [][Next]_<<frame, mid, at>>

Text == IF frame = 0 THEN mid ELSE Frames[frame].a \o mid \o Frames[frame].b

RootNames == ReachNames(MetaGrammar, {"rulelist"})

SameLanguage ==
  at > 0 \/
  LET w == Text
      c == Ctx(MetaGrammar, w)
      T == TLCEval(Reach(c, RootNames))
      d == c.n \in T[0]["rulelist"]
  IN  /\ Rd!ReadList(w).ok = d
      /\ d => Weights(c, RootNames, T)[0]["rulelist"][c.n] = 1
=============================================================================
