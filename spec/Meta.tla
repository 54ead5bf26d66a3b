-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* The meta-grammar: ABNF in ABNF (RFC 5234 section 4, with errata 2968    *)
(* and 3076; char-val of RFC 7405), in the abstract syntax of CoreRules.   *)
(***************************************************************************)
EXTENDS CoreRules

R(n) == One(Ref(n))
S(codes) == One(Chr(codes))

\* base 1*D [ 1*("." 1*D) / ("-" 1*D) ]
NumberRule(letter, d) ==
  << <<S(<<letter>>), Rep(1, Inf, Ref(d)),
       One(Opt(<< <<Rep(1, Inf, Grp(<< <<S(<<46>>), Rep(1, Inf, Ref(d))>> >>))>>,
                  <<One(Grp(<< <<S(<<45>>), Rep(1, Inf, Ref(d))>> >>))>> >>))>> >>

MetaNames == {"rulelist", "rule", "rulename", "defined-as", "elements", "c-wsp", "c-nl", "comment", "alternation", "concatenation", "repetition", "repeat", "element", "group", "option", "char-val", "ci-string", "cs-string", "quoted-string", "num-val", "bin-val", "dec-val", "hex-val", "prose-val"}

MetaRule(nm) ==
  CASE nm = "rulelist" -> << <<Rep(1, Inf, Grp(<< <<R("rule")>>,
                                              <<One(Grp(<< <<Many(Ref("wsp")), R("c-nl")>> >>))>> >>))>> >>
    [] nm = "rule" -> << <<R("rulename"), R("defined-as"), R("elements"), R("c-nl")>> >>
    [] nm = "rulename" -> << <<R("alpha"), Many(Grp(<< <<R("alpha")>>, <<R("digit")>>, <<S(<<45>>)>> >>))>> >>
    [] nm = "defined-as" -> << <<Many(Ref("c-wsp")), One(Grp(<< <<S(<<61>>)>>, <<S(<<61, 47>>)>> >>)), Many(Ref("c-wsp"))>> >>
    [] nm = "elements" -> << <<R("alternation"), Many(Ref("wsp"))>> >>
    [] nm = "c-wsp" -> << <<R("wsp")>>, <<One(Grp(<< <<R("c-nl"), R("wsp")>> >>))>> >>
    [] nm = "c-nl" -> << <<R("comment")>>, <<R("crlf")>> >>
    [] nm = "comment" -> << <<S(<<59>>), Many(Grp(<< <<R("wsp")>>, <<R("vchar")>> >>)), R("crlf")>> >>
    [] nm = "alternation" -> << <<R("concatenation"),
                           Many(Grp(<< <<Many(Ref("c-wsp")), S(<<47>>), Many(Ref("c-wsp")), R("concatenation")>> >>))>> >>
    [] nm = "concatenation" -> << <<R("repetition"), Many(Grp(<< <<Rep(1, Inf, Ref("c-wsp")), R("repetition")>> >>))>> >>
    [] nm = "repetition" -> << <<One(Opt(<< <<R("repeat")>> >>)), R("element")>> >>
    [] nm = "repeat" -> << <<Rep(1, Inf, Ref("digit"))>>,
                         <<One(Grp(<< <<Many(Ref("digit")), S(<<42>>), Many(Ref("digit"))>> >>))>> >>
    [] nm = "element" -> << <<R("rulename")>>, <<R("group")>>, <<R("option")>>, <<R("char-val")>>, <<R("num-val")>>, <<R("prose-val")>> >>
    [] nm = "group" -> << <<S(<<40>>), Many(Ref("c-wsp")), R("alternation"), Many(Ref("c-wsp")), S(<<41>>)>> >>
    [] nm = "option" -> << <<S(<<91>>), Many(Ref("c-wsp")), R("alternation"), Many(Ref("c-wsp")), S(<<93>>)>> >>
    [] nm = "char-val" -> << <<R("ci-string")>>, <<R("cs-string")>> >>
    [] nm = "ci-string" -> << <<One(Opt(<< <<S(<<37, 105>>)>> >>)), R("quoted-string")>> >>
    [] nm = "cs-string" -> << <<S(<<37, 115>>), R("quoted-string")>> >>
    [] nm = "quoted-string" -> << <<R("dquote"), Many(Grp(<< Seq1(Rng(32, 33)), Seq1(Rng(35, 126)) >>)), R("dquote")>> >>
    [] nm = "num-val" -> << <<S(<<37>>), One(Grp(<< <<R("bin-val")>>, <<R("dec-val")>>, <<R("hex-val")>> >>))>> >>
    [] nm = "bin-val" -> NumberRule(98, "bit")
    [] nm = "dec-val" -> NumberRule(100, "digit")
    [] nm = "hex-val" -> NumberRule(120, "hexdig")
    [] nm = "prose-val" -> << <<S(<<60>>), Many(Grp(<< Seq1(Rng(32, 61)), Seq1(Rng(63, 126)) >>)), S(<<62>>)>> >>

MetaGrammar == [nm \in MetaNames |-> MetaRule(nm)]
=============================================================================
