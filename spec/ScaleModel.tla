----------------------------- MODULE ScaleModel -----------------------------
(***************************************************************************)
(* The closed forms of ConformScale are what the general definitions say:  *)
(* for each family, small sizes, and every short input over the octets     *)
(* that matter to it.                                                      *)
(***************************************************************************)
EXTENDS ConformScale, Octets, IOUtils

MaxLen == atoi(IOEnv.MAXLEN)

W3(a, b, c) == <<a, b, c>>
Few == <<W3(97, 97, 97), W3(97, 97, 98), W3(98, 97, 97)>>
P(fam, n, mn, mx, ws) == [fam |-> fam, n |-> n, mn |-> mn, mx |-> mx, lo |-> 97, hi |-> 98, w |-> ws]
Instances ==
  { P(f, 1, 0, -1, <<>>) : f \in {"star", "lines", "nest", "left", "right", "catalan", "dup", "fib"} }
  \cup { P("cnt", 1, b[1], b[2], <<w>>) : b \in {<<1, -1>>, <<2, 2>>, <<2, 3>>, <<1, 3>>}, w \in {<<97>>, <<97, 98>>} }
  \cup { P(f, 1, 0, -1, SubSeq(Few, 1, k)) : f \in {"alt", "fan", "incr", "cat", "rules"}, k \in 1..2 }
  \cup { P("alt", 1, 0, -1, Few) }
  \cup { P(f, 1, 0, -1, <<w>>) : f \in {"lit", "num"}, w \in {<<97>>, <<97, 98, 97>>} }
  \cup { P(f, 1, 0, -1, ws) : f \in {"twn", "twl", "twr"}, ws \in {<<<<97>>, <<98>>>>, <<<<98, 97>>, <<98, 98>>>>, <<<<98, 97>>, <<97, 97>>>>} }
  \cup { P(f, k, 0, -1, <<>>) : f \in {"grp", "opt"}, k \in 1..3 }

X == Chr(<<120>>)
RECURSIVE Levels(_, _)
Levels(f, k) == LET a == <<<<IF k = 1 THEN One(X) ELSE One(Levels(f, k - 1))>>>> IN IF f = "grp" THEN Grp(a) ELSE Opt(a)
Ri(i) == "r" \o ToString(i)
GrammarOf(p) ==
  LET ws == [i \in DOMAIN p.w |-> Chr(p.w[i])]
      a(alt) == [a |-> alt]
  IN
  CASE p.fam = "star"  -> a(<<<<Many(Rng(p.lo, p.hi))>>>>)
    [] p.fam = "cnt"   -> a(<<<<Rep(p.mn, p.mx, ws[1])>>>>)
    [] p.fam = "lines" -> a(<<<<Many(Grp(<<<<Many(Rng(p.lo, p.hi)), One(Ser(<<13, 10>>))>>>>))>>>>)
    [] p.fam = "nest"  -> a(<<<<One(Chr(<<40>>)), One(Ref("a")), One(Chr(<<41>>))>>, <<One(X)>>>>)
    [] p.fam = "left"  -> a(<<<<One(Ref("a")), One(X)>>, <<One(X)>>>>)
    [] p.fam = "right" -> a(<<<<One(X), One(Ref("a"))>>, <<One(X)>>>>)
    [] p.fam = "catalan" -> a(<<<<One(Ref("a")), One(Ref("a"))>>, <<One(X)>>>>)
    [] p.fam = "dup"   -> a(<<<<Many(Grp(<<<<One(X)>>, <<One(X)>>>>))>>>>)
    [] p.fam = "fib"   -> a(<<<<Many(Grp(<<<<One(X)>>, <<One(Chr(<<120, 120>>))>>>>))>>>>)
    [] p.fam \in {"alt", "incr"} -> a([i \in DOMAIN p.w |-> <<One(ws[i])>>])
    [] p.fam = "cat"   -> a(<<[i \in DOMAIN p.w |-> One(ws[i])]>>)
    [] p.fam = "lit"   -> a(<<<<One(ws[1])>>>>)
    [] p.fam = "num"   -> a(<<<<One(Ser(p.w[1]))>>>>)
    [] p.fam \in {"grp", "opt"} -> a(<<<<One(Levels(p.fam, p.n))>>>>)
    [] p.fam = "twn"   -> a(<<<<One(Ser(p.w[1]))>>, <<One(Chr(<<45>>)), One(Ser(p.w[2]))>>>>)
    [] p.fam = "twl"   -> a(<<<<One(ws[1])>>, <<One(Chr(<<45>>)), One(ws[2])>>>>)
    [] p.fam = "twr"   -> [nm \in {"a", "q1", "q2"} |-> CASE nm = "a"  -> <<<<One(Ref("q1"))>>, <<One(Chr(<<45>>)), One(Ref("q2"))>>>>
                                                          [] nm = "q1" -> <<<<One(X)>>>>
                                                          [] nm = "q2" -> <<<<One(Chr(<<121>>))>>>>]
    [] p.fam = "rules" -> [nm \in { Ri(i - 1) : i \in DOMAIN p.w } |->
                             LET i == CHOOSE j \in DOMAIN p.w : nm = Ri(j - 1)
                             IN  IF i = Len(p.w) THEN <<<<One(ws[i])>>>> ELSE <<<<One(ws[i]), One(Ref(Ri(i)))>>>>]
    [] p.fam = "fan"   -> [nm \in {Ri(0)} \cup { Ri(i) : i \in DOMAIN p.w } |->
                             IF nm = Ri(0) THEN [i \in DOMAIN p.w |-> <<One(Ref(Ri(i)))>>]
                             ELSE <<<<One(ws[CHOOSE j \in DOMAIN p.w : nm = Ri(j)])>>>>]
RootOf(p) == IF p.fam \in {"rules", "fan"} THEN Ri(0) ELSE "a"

Alphabet(p) ==
  CASE p.fam \in {"star"} -> {96, 97, 98}
    [] p.fam = "lines" -> {97, 98, 13, 10}
    [] p.fam = "nest" -> {40, 41, 120, 88}
    [] p.fam \in {"left", "right", "catalan", "dup", "fib", "grp", "opt"} -> {120, 88, 33}
    [] p.fam \in {"twn", "twl"} -> {97, 98, 66, 45}
    [] p.fam = "twr" -> {120, 121, 89, 45}
    [] OTHER -> {97, 98, 65}

CaseAlphabet(p) == IF p.fam \in {"grp", "opt", "twr"} THEN {120, 88, 45, 121, 89} ELSE IF p.fam \in {"cat", "rules"} THEN {97, 65, 98, 66} ELSE {97, 98, 65, 66, 45}

\* the tree whose nodes in preorder are ns, from k on: <<tree, next>>
RECURSIVE TreeAt(_, _, _), KidsAt(_, _, _, _)
TreeAt(p, ns, k) ==
  LET x == ns[k]
      r == IF x[1] < 0 THEN "" ELSE IF p.fam \in {"rules", "fan"} THEN Ri(x[1]) ELSE "a"
      kids == KidsAt(p, ns, k + 1, x[4])
  IN  <<[r |-> r, s |-> x[2], e |-> x[3], c |-> kids[1]], kids[2]>>
KidsAt(p, ns, k, n) ==
  IF n = 0 THEN <<<<>>, k>>
  ELSE LET t == TreeAt(p, ns, k)
           m == KidsAt(p, ns, t[2], n - 1)
       IN  <<<<t[1]>> \o m[1], m[2]>>

VARIABLES p, s
Init == p \in Instances /\ s = <<>>
Next == Len(s) < MaxLen /\ \E x \in Alphabet(p) : s' = Append(s, x) /\ p' = p
Spec == Init /\ [][Next]_<<p, s>>

WithTrees == {"twn", "twl", "star", "cnt", "lines", "nest", "left", "right", "alt", "cat", "lit", "num", "rules", "fan", "grp", "incr"}
WithDiags == {"star", "lines", "nest", "alt", "cat", "rules", "fan"}
WithNext  == {"twn", "twl", "twr", "star", "cnt", "lines", "alt", "cat", "lit", "num", "rules", "fan", "incr"}

Agrees ==
  LET g == GrammarOf(p)
      root == RootOf(p)
      names == TLCEval(ReachNames(g, {root}))
      c == Ctx(g, s)
      T == TLCEval(Reach(c, names))
      d == c.n \in T[0][root]
      n == IF d THEN Weights(c, names, T)[0][root][c.n] ELSE 0
      f == Furthest(c, T, root)
  IN  /\ d = IsWord(p, s)
      /\ n # Infty /\ Ways(p, s, 30011) = n % 30011
      /\ Several(p, s) = (n > 1)
      /\ (d /\ p.fam \in WithTrees) => LET t == TreeAt(p, Derivation(p, s), 1) IN t[2] = Len(Derivation(p, s)) + 1 /\ TreeOk(g, root, s, t[1])
      /\ (~d /\ p.fam \in WithDiags) => f = FailAt(p, s) /\ { Norm(x) : x \in ExpectedAt(c, T, root, f) } = { Norm(x) : x \in ExpectedThere(p, s, f) }
      /\ (s = <<>> /\ p.fam \in {"alt", "fan", "incr", "lit", "twl", "cat", "rules", "num", "twn", "twr", "grp", "opt"} /\ p.n = 1)
           => Distinct(p) = Cardinality({ w \in UNION { [1..m -> CaseAlphabet(p)] : m \in 0..(IF p.fam \in {"cat", "rules"} THEN 3 * Len(p.w) ELSE 3) } : IsWord(p, w) })
      /\ p.fam \in WithNext => NextOf(p, s) = NextOctets(g, root, s)
=============================================================================
