----------------------------- MODULE ConformEng -----------------------------
(***************************************************************************)
(* What a recorded answer of the recognizer or of a parse engine must be.  *)
(* Each operator gives the set of <<input index, what is wrong>>.          *)
(***************************************************************************)
EXTENDS Abnf

Silent(o) == o.x = ""                     \* neither error nor panic

\* C01
BadIV(k) ==
  LET names == TLCEval(ReachNames(k.g, {k.root}))
      bad(i) ==
        LET c == Ctx(k.g, k.ins[i])
            o == k.obs[i]
            d == c.n \in Reach(c, names)[0][k.root]
        IN  IF ~Silent(o) THEN {<<i, o.x>>}
            ELSE IF o.v # d THEN {<<i, IF d THEN "rejects a word" ELSE "accepts a non-word">>} ELSE {}
  IN  UNION { bad(i) : i \in DOMAIN k.ins }

\* C02
BadForest(k) ==
  LET names == TLCEval(ReachNames(k.g, {k.root}))
      bad(i) ==
        LET c == Ctx(k.g, k.ins[i])
            o == k.obs[i]
            d == c.n \in Reach(c, names)[0][k.root]
        IN  IF ~Silent(o) THEN {<<i, o.x>>}
            ELSE (IF o.sv # d THEN {<<i, "forest validity">>} ELSE {})
                 \cup (IF o.bv # d THEN {<<i, "subtree set validity">>} ELSE {})
  IN  UNION { bad(i) : i \in DOMAIN k.ins }

\* C03
BadCount(k) ==
  LET names == TLCEval(ReachNames(k.g, {k.root}))
      bad(i) ==
        LET c == Ctx(k.g, k.ins[i])
            o == k.obs[i]
            T == TLCEval(Reach(c, names))
            n == IF c.n \in T[0][k.root] THEN Weights(c, names, T)[0][k.root][c.n] ELSE 0
            amb == n \notin {0, 1}
        IN  IF ~Silent(o) THEN {<<i, o.x>>}
            ELSE (IF o.sn # n THEN {<<i, "forest count", o.sn, n>>} ELSE {})
                 \cup (IF o.bn # n THEN {<<i, "subtree set count", o.bn, n>>} ELSE {})
                 \cup (IF o.sa # amb THEN {<<i, "forest ambiguity", amb>>} ELSE {})
                 \cup (IF o.ba # amb THEN {<<i, "subtree set ambiguity", amb>>} ELSE {})
  IN  UNION { bad(i) : i \in DOMAIN k.ins }

\* C04 (with infinitely many derivations, a tree is a sketch of one)
BadTree(k) ==
  LET names == TLCEval(ReachNames(k.g, {k.root}))
      bad(i) ==
        LET c == Ctx(k.g, k.ins[i])
            o == k.obs[i]
            T == TLCEval(Reach(c, names))
            d == c.n \in T[0][k.root]
            fin == d /\ Weights(c, names, T)[0][k.root][c.n] # Infty
            one(ts, nm) ==
              IF ~d THEN (IF ts # <<>> THEN {<<i, nm, "tree of a non-word">>} ELSE {})
              ELSE IF Len(ts) # 1 THEN {<<i, nm, "no tree">>}
              ELSE IF ~fin THEN (IF ts[1].r = k.root /\ ts[1].s = 0 /\ ts[1].e = c.n /\ Sketch(c, T, ts[1], 0, c.n)
                                 THEN {} ELSE {<<i, nm, "not made of the rules' extents">>})
              ELSE IF ~TreeOk(k.g, k.root, k.ins[i], ts[1]) THEN {<<i, nm, "not a derivation">>} ELSE {}
        IN  IF ~Silent(o) THEN {<<i, o.x>>}
            ELSE one(o.st, "forest") \cup one(o.bt, "subtree set")
  IN  UNION { bad(i) : i \in DOMAIN k.ins }

\* C19
Norm(el) == CASE el.t = "chr" -> [t |-> "chr", s |-> el.s, v |-> el.v]
              [] el.t = "ser" -> [t |-> "ser", v |-> el.v]
              [] el.t = "rng" -> [t |-> "rng", lo |-> el.lo, hi |-> el.hi]
              [] OTHER        -> [t |-> el.t]
LineOf(w, off) == 1 + Cardinality({ i \in 1..off : w[i] = 10 })
ColOf(w, off)  == LET nl == { i \in 1..off : w[i] = 10 }
                  IN  1 + off - (IF nl = {} THEN 0 ELSE CHOOSE s \in nl : \A i \in nl : i <= s)
DiagBad(w, f, exp, o) ==
     (IF o.off # f THEN {<<"offset", o.off, f>>} ELSE {})
  \cup (IF { Norm(o.exp[j]) : j \in DOMAIN o.exp } # { Norm(x) : x \in exp }
        THEN {<<"expected">>} ELSE {})
  \cup (IF o.off \in 0..Len(w)
        THEN (IF o.line # LineOf(w, o.off) \/ o.col # ColOf(w, o.off) THEN {<<"line/column">>} ELSE {})
             \cup (IF o.off < Len(w) /\ (~o.fnd \/ o.eof) THEN {<<"found">>} ELSE {})
             \cup (IF o.off = Len(w) /\ ~o.eof THEN {<<"found">>} ELSE {})
             \cup (IF o.hint # (o.off < Len(w) /\ w[o.off + 1] = 10 /\ (o.off = 0 \/ w[o.off] # 13))
                   THEN {<<"hint">>} ELSE {})
        ELSE {<<"offset out of the input">>})
  \cup (IF ~o.nosol THEN {<<"does not match the no-solution error">>} ELSE {})

BadDiag(k) ==
  LET names == TLCEval(ReachNames(k.g, {k.root}))
      bad(i) ==
        LET w == k.ins[i]
            c == Ctx(k.g, w)
            o == k.obs[i]
            T == TLCEval(Reach(c, names))
            d == c.n \in T[0][k.root]
            f == Furthest(c, T, k.root)
        IN  IF ~Silent(o) THEN {<<i, o.x>>}
            ELSE IF d THEN (IF o.has THEN {<<i, "diagnostic of a valid input">>} ELSE {})
            ELSE IF ~o.has THEN {<<i, "no diagnostic">>}
            ELSE { <<i>> \o x : x \in DiagBad(w, f, ExpectedAt(c, T, k.root, f), o) }
  IN  UNION { bad(i) : i \in DOMAIN k.ins }
=============================================================================
