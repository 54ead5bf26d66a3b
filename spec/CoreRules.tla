----------------------------- MODULE CoreRules ------------------------------
(***************************************************************************)
(* The core rules of RFC 5234 Appendix B.1, written by hand from the RFC.  *)
(* Rule names are case-insensitive: everywhere in the specification they   *)
(* are in lower case.                                                      *)
(*                                                                         *)
(* Abstract syntax of ABNF (shared by every module, and by the recorder):  *)
(*   element     [t |-> "ref", n |-> name]        rule reference           *)
(*               [t |-> "grp", a |-> alternation] group                    *)
(*               [t |-> "opt", a |-> alternation] option                   *)
(*               [t |-> "chr", s |-> sensitive?, v |-> <<codes>>]          *)
(*               [t |-> "ser", v |-> <<codes>>]   num-val series           *)
(*               [t |-> "rng", lo |-> code, hi |-> code]  num-val range    *)
(*               [t |-> "pro"]                    prose                    *)
(*   repetition  [mn |-> Nat, mx |-> Nat or Inf, e |-> element]            *)
(*   concatenation = sequence of repetitions                               *)
(*   alternation   = sequence of concatenations                            *)
(*   grammar       = function from names to alternations                   *)
(* Codes and bounds above 2^31-1 are saturated to 2^31-1.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Inf == -1

Ref(nm)      == [t |-> "ref", n |-> nm]
Grp(alt)     == [t |-> "grp", a |-> alt]
Opt(alt)     == [t |-> "opt", a |-> alt]
Chr(codes)   == [t |-> "chr", s |-> FALSE, v |-> codes]
ChrS(codes)  == [t |-> "chr", s |-> TRUE, v |-> codes]
Ser(codes)   == [t |-> "ser", v |-> codes]
Rng(l, h)    == [t |-> "rng", lo |-> l, hi |-> h]
Prose        == [t |-> "pro"]
One(el)      == [mn |-> 1, mx |-> 1, e |-> el]
Rep(m, x, el) == [mn |-> m, mx |-> x, e |-> el]
Many(el)     == Rep(0, Inf, el)
Seq1(el)     == <<One(el)>>                       \* concatenation of one element

Core ==
  [ alpha  |-> << Seq1(Rng(65, 90)), Seq1(Rng(97, 122)) >>,
    bit    |-> << Seq1(Chr(<<48>>)), Seq1(Chr(<<49>>)) >>,
    char   |-> << Seq1(Rng(1, 127)) >>,
    cr     |-> << Seq1(Ser(<<13>>)) >>,
    crlf   |-> << <<One(Ref("cr")), One(Ref("lf"))>> >>,
    ctl    |-> << Seq1(Rng(0, 31)), Seq1(Ser(<<127>>)) >>,
    digit  |-> << Seq1(Rng(48, 57)) >>,
    dquote |-> << Seq1(Ser(<<34>>)) >>,
    hexdig |-> << Seq1(Ref("digit")), Seq1(Chr(<<65>>)), Seq1(Chr(<<66>>)), Seq1(Chr(<<67>>)),
                  Seq1(Chr(<<68>>)), Seq1(Chr(<<69>>)), Seq1(Chr(<<70>>)) >>,
    htab   |-> << Seq1(Ser(<<9>>)) >>,
    lf     |-> << Seq1(Ser(<<10>>)) >>,
    lwsp   |-> << <<Many(Grp(<< Seq1(Ref("wsp")), <<One(Ref("crlf")), One(Ref("wsp"))>> >>))>> >>,
    octet  |-> << Seq1(Rng(0, 255)) >>,
    sp     |-> << Seq1(Ser(<<32>>)) >>,
    vchar  |-> << Seq1(Rng(33, 126)) >>,
    wsp    |-> << Seq1(Ref("sp")), Seq1(Ref("htab")) >> ]

\* The alternation a name stands for: the grammar's own rules first, then the
\* core rules; an unknown name has no alternative, hence derives nothing.
RuleAlt(g, nm) == IF nm \in DOMAIN g THEN g[nm]
                  ELSE IF nm \in DOMAIN Core THEN Core[nm] ELSE <<>>
Defined(g, nm) == nm \in DOMAIN g \/ nm \in DOMAIN Core

\* Names referenced by an alternation.
RECURSIVE Refs(_)
Refs(alt) ==
  UNION { UNION { LET el == alt[i][j].e IN
                    CASE el.t = "ref" -> {el.n}
                      [] el.t \in {"grp", "opt"} -> Refs(el.a)
                      [] OTHER -> {}
                  : j \in DOMAIN alt[i] } : i \in DOMAIN alt }

\* Names reachable from a set of names.
RECURSIVE ReachNames(_, _)
ReachNames(g, S) == LET N == S \cup UNION { Refs(RuleAlt(g, x)) : x \in S }
                    IN  IF N = S THEN S ELSE ReachNames(g, N)
=============================================================================
