------------------------------ MODULE AbnfText ------------------------------
(***************************************************************************)
(* From bytes to grammars: the concrete syntax of ABNF (RFC 5234 with      *)
(* errata 2968 and 3076, RFC 7405), and what a list of rules means.        *)
(*                                                                         *)
(* The concrete syntax is given twice: as the meta-grammar of the RFC      *)
(* (Meta, to be used with Abnf!Derives), and as a deterministic reader     *)
(* (ReadList) that also yields the abstract syntax.  TextModel.tla checks  *)
(* on every short text that they accept the same bytes and that Meta is    *)
(* unambiguous.                                                            *)
(*                                                                         *)
(* In this module names are sequences of lower-case codes, digits of a     *)
(* num-val are sequences of upper-case codes without leading zeros.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == -1
MAXI == 2147483647

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1
Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Upper(b) == IF b >= 97 /\ b <= 122 THEN b - 32 ELSE b
LowerAll(q) == [i \in DOMAIN q |-> Lower(q[i])]
UpperAll(q) == [i \in DOMAIN q |-> Upper(q[i])]

IsAlpha(b) == (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122)
IsDigit(b) == b >= 48 /\ b <= 57
IsWsp(b)   == b = 32 \/ b = 9
IsVchar(b) == b >= 33 /\ b <= 126
IsNameCh(b) == IsAlpha(b) \/ IsDigit(b) \/ b = 45

Fail == [ok |-> FALSE, i |-> 0]
Ok(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

RECURSIVE SkipName(_, _), SkipDigits(_, _), SkipWsp(_, _), SkipComment(_, _), SkipCWsp(_, _)
SkipName(s, i)   == IF IsNameCh(At(s, i)) THEN SkipName(s, i + 1) ELSE i
SkipDigits(s, i) == IF IsDigit(At(s, i)) THEN SkipDigits(s, i + 1) ELSE i
SkipWsp(s, i)    == IF IsWsp(At(s, i)) THEN SkipWsp(s, i + 1) ELSE i
SkipComment(s, i) == IF IsWsp(At(s, i)) \/ IsVchar(At(s, i)) THEN SkipComment(s, i + 1) ELSE i

\* c-nl = comment / CRLF ; gives the index after it, or 0
CNl(s, i) ==
  LET j == IF At(s, i) = 59 THEN SkipComment(s, i + 1) ELSE i
  IN  IF At(s, j) = 13 /\ At(s, j + 1) = 10 THEN j + 2 ELSE 0

\* *c-wsp, greedily: what follows it never starts like a c-wsp
SkipCWsp(s, i) ==
  IF IsWsp(At(s, i)) THEN SkipCWsp(s, i + 1)
  ELSE LET j == CNl(s, i) IN IF j > 0 /\ IsWsp(At(s, j)) THEN SkipCWsp(s, j + 1) ELSE i

\* saturated decimal value of s[i..j-1]
RECURSIVE DecVal(_, _, _, _)
DecVal(s, i, j, acc) ==
  IF i >= j THEN acc
  ELSE LET d == s[i] - 48
       IN  IF acc > (MAXI - d) \div 10 THEN MAXI ELSE DecVal(s, i + 1, j, acc * 10 + d)

RECURSIVE StripZeros(_)
StripZeros(q) == IF Len(q) > 1 /\ Head(q) = 48 THEN StripZeros(Tail(q)) ELSE q

IsBaseDigit(b, base) ==
  CASE base = 98  -> b \in {48, 49}
    [] base = 100 -> IsDigit(b)
    [] OTHER      -> IsDigit(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
RECURSIVE SkipBase(_, _, _)
SkipBase(s, i, base) == IF IsBaseDigit(At(s, i), base) THEN SkipBase(s, i + 1, base) ELSE i
Digits(s, i, j) == StripZeros(UpperAll(SubSeq(s, i, j - 1)))

RECURSIVE SkipQuoted(_, _), SkipProse(_, _)
SkipQuoted(s, i) == IF At(s, i) \in ({32, 33} \cup 35..126) THEN SkipQuoted(s, i + 1) ELSE i
SkipProse(s, i)  == IF At(s, i) \in (32..61 \cup 63..126) THEN SkipProse(s, i + 1) ELSE i

Quoted(s, i, sens) ==
  IF At(s, i) # 34 THEN Fail
  ELSE LET j == SkipQuoted(s, i + 1)
       IN  IF At(s, j) # 34 THEN Fail
           ELSE Ok(j + 1, [t |-> "chr", s |-> sens, v |-> SubSeq(s, i + 1, j - 1)])

\* the rest of a series: 1*("." 1*DIGITS)
RECURSIVE SeriesRest(_, _, _, _)
SeriesRest(s, i, base, acc) ==
  IF At(s, i) = 46 /\ IsBaseDigit(At(s, i + 1), base)
  THEN LET j == SkipBase(s, i + 1, base) IN SeriesRest(s, j, base, Append(acc, Digits(s, i + 1, j)))
  ELSE Ok(i, [t |-> "ser", b |-> base, d |-> acc])

NumVal(s, i, base) ==
  LET j == SkipBase(s, i, base)
  IN  IF j = i THEN Fail
      ELSE IF At(s, j) = 45 /\ IsBaseDigit(At(s, j + 1), base)
           THEN LET e == SkipBase(s, j + 1, base)
                IN  Ok(e, [t |-> "rng", b |-> base, d |-> <<Digits(s, i, j), Digits(s, j + 1, e)>>])
           ELSE SeriesRest(s, j, base, <<Digits(s, i, j)>>)

RECURSIVE Element(_, _), Repetition(_, _), ConcatRest(_, _, _), AltRest(_, _, _), Alternation(_, _)

Bracket(s, i, close, tag) ==
  LET a == TLCEval(Alternation(s, SkipCWsp(s, i)))
  IN  IF ~a.ok THEN Fail
      ELSE LET j == SkipCWsp(s, a.i)
           IN  IF At(s, j) = close THEN Ok(j + 1, [t |-> tag, a |-> a.v]) ELSE Fail

Element(s, i) ==
  LET b == At(s, i)
      n == Lower(At(s, i + 1))
  IN CASE IsAlpha(b) -> LET j == SkipName(s, i + 1)
                        IN  Ok(j, [t |-> "ref", n |-> LowerAll(SubSeq(s, i, j - 1))])
       [] b = 40 -> Bracket(s, i + 1, 41, "grp")
       [] b = 91 -> Bracket(s, i + 1, 93, "opt")
       [] b = 34 -> Quoted(s, i, FALSE)
       [] b = 37 -> IF n = 115 THEN Quoted(s, i + 2, TRUE)
                    ELSE IF n = 105 THEN Quoted(s, i + 2, FALSE)
                    ELSE IF n \in {98, 100, 120} THEN NumVal(s, i + 2, n)
                    ELSE Fail
       [] b = 60 -> LET j == SkipProse(s, i + 1)
                    IN  IF At(s, j) = 62 THEN Ok(j + 1, [t |-> "pro", x |-> SubSeq(s, i + 1, j - 1)])
                        ELSE Fail
       [] OTHER  -> Fail

Repetition(s, i) ==
  LET j  == SkipDigits(s, i)
      st == At(s, j) = 42
      k  == IF st THEN SkipDigits(s, j + 1) ELSE j
      mn == IF j > i THEN DecVal(s, i, j, 0) ELSE IF st THEN 0 ELSE 1
      mx == IF st THEN (IF k > j + 1 THEN DecVal(s, j + 1, k, 0) ELSE INF)
            ELSE IF j > i THEN mn ELSE 1
      e  == TLCEval(Element(s, k))
  IN  IF ~e.ok THEN Fail ELSE Ok(e.i, [mn |-> mn, mx |-> mx, e |-> e.v])

ConcatRest(s, i, acc) ==
  LET j == SkipCWsp(s, i)
      r == TLCEval(Repetition(s, j))
  IN  IF j > i /\ r.ok THEN ConcatRest(s, r.i, Append(acc, r.v)) ELSE Ok(i, acc)

Concatenation(s, i) ==
  LET r == TLCEval(Repetition(s, i)) IN IF ~r.ok THEN Fail ELSE ConcatRest(s, r.i, <<r.v>>)

AltRest(s, i, acc) ==
  LET j == SkipCWsp(s, i)
  IN  IF At(s, j) # 47 THEN Ok(i, acc)
      ELSE LET c == TLCEval(Concatenation(s, SkipCWsp(s, j + 1)))
           IN  IF c.ok THEN AltRest(s, c.i, Append(acc, c.v)) ELSE Ok(i, acc)

Alternation(s, i) ==
  LET c == TLCEval(Concatenation(s, i)) IN IF ~c.ok THEN Fail ELSE AltRest(s, c.i, <<c.v>>)

\* rule = rulename defined-as elements c-nl
Rule(s, i) ==
  IF ~IsAlpha(At(s, i)) THEN Fail
  ELSE LET j  == SkipName(s, i + 1)
           k  == SkipCWsp(s, j)
           inc == At(s, k + 1) = 47
           a  == TLCEval(Alternation(s, SkipCWsp(s, IF inc THEN k + 2 ELSE k + 1)))
           e  == CNl(s, SkipWsp(s, a.i))
       IN  IF At(s, k) # 61 \/ ~a.ok THEN Fail
           ELSE IF e = 0 THEN Fail
           ELSE Ok(e, [n |-> LowerAll(SubSeq(s, i, j - 1)), inc |-> inc, a |-> a.v])

\* rulelist = 1*( rule / (*WSP c-nl) )
RECURSIVE Lines(_, _, _)
Lines(s, i, acc) ==
  IF i > Len(s) THEN Ok(i, acc)
  ELSE LET r == TLCEval(Rule(s, i))
           b == CNl(s, SkipWsp(s, i))
       IN  IF r.ok THEN Lines(s, r.i, Append(acc, r.v))
           ELSE IF b > 0 THEN Lines(s, b, acc)
           ELSE Fail

ReadList(s) == IF s = <<>> THEN Fail ELSE Lines(s, 1, <<>>)

-----------------------------------------------------------------------------
(* What a list of rules means.  CoreNames are the names of the core rules. *)

CoreNames == {
  <<97,108,112,104,97>>, <<98,105,116>>, <<99,104,97,114>>, <<99,114>>, <<99,114,108,102>>,
  <<99,116,108>>, <<100,105,103,105,116>>, <<100,113,117,111,116,101>>, <<104,101,120,100,105,103>>,
  <<104,116,97,98>>, <<108,102>>, <<108,119,115,112>>, <<111,99,116,101,116>>, <<115,112>>,
  <<118,99,104,97,114>>, <<119,115,112>> }

Num(base, v) == [t |-> "ser", b |-> base, d |-> <<v>>]
CRng(lo, hi) == [t |-> "rng", b |-> 120, d |-> <<lo, hi>>]
C1(el) == <<[mn |-> 1, mx |-> 1, e |-> el]>>
CRef(nm) == [t |-> "ref", n |-> nm]
CChr(v) == [t |-> "chr", s |-> FALSE, v |-> v]

\* The core rules (RFC 5234 B.1) with the digits of the RFC, for extensions.
CoreText(nm) ==
  CASE nm = <<97,108,112,104,97>> -> << C1(CRng(<<52,49>>, <<53,65>>)), C1(CRng(<<54,49>>, <<55,65>>)) >>
    [] nm = <<98,105,116>>   -> << C1(CChr(<<48>>)), C1(CChr(<<49>>)) >>
    [] nm = <<99,104,97,114>> -> << C1(CRng(<<49>>, <<55,70>>)) >>
    [] nm = <<99,114>>       -> << C1(Num(120, <<68>>)) >>
    [] nm = <<99,114,108,102>> -> << C1(CRef(<<99,114>>)) \o C1(CRef(<<108,102>>)) >>
    [] nm = <<99,116,108>>   -> << C1(CRng(<<48>>, <<49,70>>)), C1(Num(120, <<55,70>>)) >>
    [] nm = <<100,105,103,105,116>> -> << C1(CRng(<<51,48>>, <<51,57>>)) >>
    [] nm = <<100,113,117,111,116,101>> -> << C1(Num(120, <<50,50>>)) >>
    [] nm = <<104,101,120,100,105,103>> ->
         << C1(CRef(<<100,105,103,105,116>>)), C1(CChr(<<65>>)), C1(CChr(<<66>>)), C1(CChr(<<67>>)),
            C1(CChr(<<68>>)), C1(CChr(<<69>>)), C1(CChr(<<70>>)) >>
    [] nm = <<104,116,97,98>> -> << C1(Num(120, <<57>>)) >>
    [] nm = <<108,102>>      -> << C1(Num(120, <<65>>)) >>
    [] nm = <<108,119,115,112>> ->
         << <<[mn |-> 0, mx |-> INF, e |-> [t |-> "grp", a |->
               << C1(CRef(<<119,115,112>>)), C1(CRef(<<99,114,108,102>>)) \o C1(CRef(<<119,115,112>>)) >>]]>> >>
    [] nm = <<111,99,116,101,116>> -> << C1(CRng(<<48>>, <<70,70>>)) >>
    [] nm = <<115,112>>      -> << C1(Num(120, <<50,48>>)) >>
    [] nm = <<118,99,104,97,114>> -> << C1(CRng(<<50,49>>, <<55,69>>)) >>
    [] nm = <<119,115,112>>  -> << C1(CRef(<<115,112>>)), C1(CRef(<<104,116,97,98>>)) >>
    [] OTHER -> << >>

Empty == [x \in {} |-> <<>>]

\* One definition or extension: the next state of the rule set, or a refusal.
\* st = [ok |-> TRUE, m |-> names to alternations] or [ok |-> FALSE, err, n].
Refuse(e, nm) == [ok |-> FALSE, err |-> e, n |-> nm, m |-> Empty]
Define(st, r, red) ==
  LET core == r.n \in CoreNames
      has  == r.n \in DOMAIN st.m
  IN  IF core /\ ~red THEN Refuse("core", r.n)
      ELSE IF ~r.inc
           THEN IF has THEN Refuse("dup", r.n) ELSE [ok |-> TRUE, m |-> (r.n :> r.a) @@ st.m]
           ELSE IF has THEN [ok |-> TRUE, m |-> (r.n :> (st.m[r.n] \o r.a)) @@ st.m]
           ELSE IF core THEN [ok |-> TRUE, m |-> (r.n :> (CoreText(r.n) \o r.a)) @@ st.m]
           ELSE Refuse("unknown", r.n)

RECURSIVE DefineAll(_, _, _, _)
DefineAll(st, rs, k, red) ==
  IF k > Len(rs) \/ ~st.ok THEN st ELSE DefineAll(TLCEval(Define(st, rs[k], red)), rs, k + 1, red)

\* Semantic validation: what is wrong in a rule set.
RECURSIVE ElemsOf(_), RepsOf(_)
RepsOf(alt) == UNION { UNION { LET r == alt[i][j]
                                 IN  {r} \cup (IF r.e.t \in {"grp", "opt"} THEN RepsOf(r.e.a) ELSE {})
                               : j \in DOMAIN alt[i] } : i \in DOMAIN alt }
ElemsOf(alt) == { r.e : r \in RepsOf(alt) }

\* the value of digits (without leading zeros, upper case) exceeds U+10FFFF
DigitVal(b) == IF b <= 57 THEN b - 48 ELSE b - 55
RECURSIVE ValOf(_, _, _, _)
ValOf(q, k, radix, acc) ==
  IF k > Len(q) THEN acc
  ELSE IF acc > 1114111 THEN acc ELSE ValOf(q, k + 1, radix, acc * radix + DigitVal(q[k]))
Radix(base) == CASE base = 98 -> 2 [] base = 100 -> 10 [] OTHER -> 16
TooLarge(q, base) == ValOf(q, 1, Radix(base), 0) > 1114111

Faults(m) ==
  LET R == UNION { RepsOf(m[n]) : n \in DOMAIN m }
      E == { r.e : r \in R }
  IN  [ dep |-> { e.n : e \in { x \in E : x.t = "ref" } } \ (DOMAIN m \cup CoreNames),
        rep |-> { r \in R : r.mx # INF /\ r.mn > r.mx },
        num |-> UNION { { <<e.b, e.d[i]>> : i \in { j \in DOMAIN e.d : TooLarge(e.d[j], e.b) } }
                        : e \in { x \in E : x.t \in {"ser", "rng"} } } ]

\* The outcome of reading a text under the two options.
Outcome(s, validate, red) ==
  LET l == ReadList(s)
  IN  IF ~l.ok THEN [k |-> "syntax"]
      ELSE LET st == DefineAll([ok |-> TRUE, m |-> Empty], l.v, 1, red)
           IN  IF ~st.ok THEN [k |-> "refused", err |-> st.err, n |-> st.n]
               ELSE LET f == Faults(st.m)
                    IN  IF validate /\ (f.dep # {} \/ f.rep # {} \/ f.num # {})
                        THEN [k |-> "invalid", f |-> f]
                        ELSE [k |-> "ok", m |-> st.m]
=============================================================================
