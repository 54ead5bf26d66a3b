------------------------------ MODULE RuleList -------------------------------
(***************************************************************************)
(* A list of rules as a history of definitions and extensions: the state   *)
(* is the set of rules so far, a step adds a line.  TLC enumerates every   *)
(* history up to a length, checks the invariants below, and prints what    *)
(* reading each gives under each combination of options; the lines are     *)
(* replayed into the real code (vectors/).                                 *)
(***************************************************************************)
EXTENDS AbnfText, Json, IOUtils

Max == atoi(IOEnv.MAXLEN)

\* names as written: a A b DIGIT Digit
Written == << <<97>>, <<65>>, <<98>>, <<68, 73, 71, 73, 84>>, <<100, 105, 103, 105, 116>> >>
\* bodies as written: "x"   B   a "y"   2*1"x"   %x110000
Bodies == << <<34, 120, 34>>, <<66>>, <<97, 32, 47, 32, 40, 34, 121, 34, 41>>, <<50, 42, 49, 34, 120, 34>>, <<37, 120, 49, 49, 48, 48, 48, 48>> >>
Eq(inc) == IF inc THEN <<32, 61, 47, 32>> ELSE <<32, 61, 32>>
Crlf == <<13, 10>>

VARIABLES text, strict, free      \* the rule sets without and with the right to touch core rules
vars == <<text, strict, free>>
Start == [ok |-> TRUE, m |-> Empty]
Init == text = <<>> /\ strict = Start /\ free = Start

Told(o) == CASE o.k = "ok" -> [k |-> "ok", g |-> { [n |-> nm, a |-> o.m[nm]] : nm \in DOMAIN o.m }]
             [] OTHER -> o
Tell(s) == \A val, red \in BOOLEAN : PrintT("VEC " \o ToJson([src |-> s, val |-> val, red |-> red, e |-> Told(Outcome(s, val, red))]))

\* lines so far
RECURSIVE Count(_, _)
Count(s, i) == IF i > Len(s) THEN 0 ELSE (IF s[i] = 10 THEN 1 ELSE 0) + Count(s, i + 1)

Advance(st, r, red) == IF st.ok THEN Define(st, r, red) ELSE st
Line(nm, inc, b) ==
  LET l == Written[nm] \o Eq(inc) \o Bodies[b] \o Crlf
      r == ReadList(l).v[1]
  IN  /\ text' = text \o l
      /\ strict' = Advance(strict, r, FALSE)
      /\ free' = Advance(free, r, TRUE)
      /\ Tell(text')
Next == /\ Count(text, 1) < Max
        /\ \E nm \in DOMAIN Written, inc \in BOOLEAN, b \in DOMAIN Bodies : Line(nm, inc, b)
Spec == Init /\ [][Next]_vars

\* reading the whole text is taking the steps one by one
Compositional ==
  text # <<>> =>
    /\ LET o == Outcome(text, FALSE, FALSE) IN IF strict.ok THEN o.k = "ok" /\ o.m = strict.m ELSE o.k = "refused" /\ o.err = strict.err /\ o.n = strict.n
    /\ LET o == Outcome(text, FALSE, TRUE) IN IF free.ok THEN o.k = "ok" /\ o.m = free.m ELSE o.k = "refused" /\ o.err = free.err /\ o.n = free.n
\* without the right, no core rule is ever in the set; with it, the same otherwise
CoreKept == (DOMAIN strict.m \cap CoreNames) = {}
StrictIsFree == strict.ok => free.ok /\ strict.m = free.m
\* an extension keeps what was there, in order; nothing is ever forgotten
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
OnlyGrows == [][free'.ok => \A nm \in DOMAIN free.m : nm \in DOMAIN free'.m /\ Prefix(free.m[nm], free'.m[nm])]_vars
\* a refusal is final
Final == [][(~strict.ok => strict' = strict) /\ (~free.ok => free' = free)]_vars
=============================================================================
