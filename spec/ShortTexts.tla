----------------------------- MODULE ShortTexts ------------------------------
(***************************************************************************)
(* Every short text in a few surroundings, with what reading it gives.     *)
(* TLC enumerates them and prints one line per text; the lines are         *)
(* replayed into the real code (vectors/).  A state is a text under        *)
(* construction.                                                           *)
(***************************************************************************)
EXTENDS AbnfText, Json, IOUtils

\* a = / " % x s d 1 0 - . * ( ) [ ] < > SP ; CR LF HTAB
Symbols == {97, 61, 47, 34, 37, 120, 115, 100, 49, 48, 45, 46, 42, 40, 41, 91, 93, 60, 62, 32, 59, 13, 10, 9}
Frames == << [a |-> <<>>, b |-> <<>>],
             [a |-> <<97, 61>>, b |-> <<13, 10>>],                          \* a=...
             [a |-> <<97, 61, 34>>, b |-> <<34, 13, 10>>],                  \* a="..."
             [a |-> <<97, 61, 34, 34>>, b |-> <<13, 10>>],                  \* a=""...
             [a |-> <<97, 61, 37, 120, 49>>, b |-> <<13, 10>>],             \* a=%x1...
             [a |-> <<97, 61, 37>>, b |-> <<49, 13, 10>>],                  \* a=%...1
             [a |-> <<97, 61, 40, 97>>, b |-> <<41, 13, 10>>],              \* a=(a...)
             [a |-> <<97, 61>>, b |-> <<97, 13, 10>>],                      \* a=...a
             [a |-> <<97>>, b |-> <<97, 13, 10>>],                          \* a...a
             [a |-> <<97, 61, 97>>, b |-> <<97, 13, 10>>],                  \* a=a...a
             [a |-> <<97, 61, 97, 13, 10>>, b |-> <<13, 10>>] >>            \* a=a CRLF ...

Max == atoi(IOEnv.MAXLEN)

VARIABLES frame, mid
Init == frame \in DOMAIN Frames /\ mid = <<>>
Text(m) == Frames[frame].a \o m \o Frames[frame].b

\* an outcome, printable
Told(o) == CASE o.k = "ok" -> [k |-> "ok", g |-> { [n |-> nm, a |-> o.m[nm]] : nm \in DOMAIN o.m }]
             [] OTHER -> o
Tell(s, val, red) == PrintT("VEC " \o ToJson([src |-> s, val |-> val, red |-> red, e |-> Told(Outcome(s, val, red))]))

Grow == Len(mid) < Max /\ \E x \in Symbols : mid' = Append(mid, x) /\ Tell(Text(mid'), FALSE, TRUE)
Next == Grow /\ UNCHANGED frame
Spec == Init /\ [][Next]_<<frame, mid>>
=============================================================================
