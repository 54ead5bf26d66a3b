----------------------------- MODULE ConformGen -----------------------------
(***************************************************************************)
(* What the analyses of rules and the generators must answer               *)
(* (C06, C11, C12, C17).                                                   *)
(***************************************************************************)
EXTENDS Rules

\* C17
BadDep(k) ==
  LET o == k.obs
      ds == { o.deps[i] : i \in DOMAIN o.deps }
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE (IF \E i \in DOMAIN o.dag : o.dag[i] # Acyclic(k.g) THEN {<<"acyclic", Acyclic(k.g)>>} ELSE {})
        \cup { <<"contains a cycle", a.n>> : a \in { x \in { o.asks[i] : i \in DOMAIN o.asks } :
                 IF Defined(k.g, x.n) THEN x.k # "ok" \/ x.cyc # HasCycle(k.g, x.n) ELSE x.k # "unknown" } }
        \cup (IF { d.n : d \in ds } # Names(k.g) \/ Cardinality(ds) # Cardinality(Names(k.g)) THEN {<<"rules of the dependency graph">>} ELSE {})
        \cup { <<"dependencies", d.n>> : d \in { x \in ds :
                 \/ x.key # x.n
                 \/ { x.deps[i] : i \in DOMAIN x.deps } # Deps(k.g, x.n)
                 \/ Len(x.deps) # Cardinality(Deps(k.g, x.n)) } }
        \cup (IF { <<o.mer[i][1], o.mer[i][2]>> : i \in DOMAIN o.mer } # UNION { { <<nm, d>> : d \in Deps(k.g, nm) } : nm \in Names(k.g) }
              THEN {<<"mermaid">>} ELSE {})

\* C06
BadRe(k) ==
  LET o   == k.obs
      cyc == HasCycle(k.g, k.root)
      pro == ProseReachable(k.g, k.root)
      names == TLCEval(ReachNames(k.g, {k.root}))
      d(i) == LET c == Ctx(k.g, k.ins[i]) IN c.n \in Reach(c, names)[0][k.root]
      bud(b) == IF b.max = 0 \/ o.len <= b.max
                THEN (IF b.k # "ok" \/ ~b.same THEN {<<"budget refused or altered", b.max>>} ELSE {})
                ELSE (IF b.k # "toolarge" \/ b.lim # b.max THEN {<<"budget", b.max, b.k>>} ELSE {})
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE IF ~Defined(k.g, k.root) THEN (IF o.k # "unknown" \/ o.n # k.root THEN {<<"unknown rule", o.k>>} ELSE {})
      ELSE IF cyc \/ pro
           THEN (IF (o.k = "cyclic" /\ cyc) \/ (o.k = "prose" /\ pro) THEN {} ELSE {<<"should be refused", o.k>>})
      ELSE IF o.k # "ok" THEN {<<"refused", o.k>>}
      ELSE IF ~o.comp THEN (IF AltProduct(k.g, RuleAlt(k.g, k.root)) > 1000 THEN {} ELSE {<<"does not compile">>})
      ELSE { <<i, IF o.m[i] THEN "matches a non-word" ELSE "does not match a word">> :
               i \in { x \in DOMAIN k.ins : ValidUtf8(k.ins[x]) /\ o.m[x] # d(x) } }
           \cup UNION { bud(o.bud[i]) : i \in DOMAIN o.bud }

\* C11: obs is a sequence of generations
BadGw(k) ==
  LET names == TLCEval(ReachNames(k.g, {k.root}))
      prod  == k.root \in ProductiveNames(k.g, names)
      one(o, a) ==
        IF o.x # "" THEN {<<o.x>>}
        ELSE IF ~Defined(k.g, k.root) THEN (IF o.k # "unknown" THEN {<<"unknown rule", o.k>>} ELSE {})
        ELSE IF ~prod THEN (IF o.k = "ok" THEN {<<"word of a rule that has none", o.w>>} ELSE {})
        ELSE IF o.k # "ok" THEN {<<"refuses to generate", o.k>>}
        ELSE (IF ~o.same THEN {<<"not reproducible">>} ELSE {})
             \cup (IF o.long THEN {}
                   ELSE LET c == Ctx(k.g, o.w)
                            d == [Ctx(CappedTo(k.g, k.root, IF a.def THEN 16 ELSE a.rep), o.w)
                                    EXCEPT !.thr = IF a.def THEN 256 ELSE MaxI(0, a.thr)]
                        IN  IF c.n \notin Reach(c, names)[0][k.root] THEN {<<"not a word", o.w>>}
                            ELSE IF d.n \notin Reach(d, names)[0][k.root] THEN {<<"a word beyond the cap or the threshold", o.w, a>>}
                            ELSE {})
  IN  UNION { one(k.obs[i], k.par.asks[i]) : i \in DOMAIN k.obs }

\* C12: obs.k of the preparation, obs.ws the words
BadAg(k) ==
  LET o     == k.obs
      names == TLCEval(ReachNames(k.g, {k.root}))
      prod  == TLCEval(ProductiveNames(k.g, names))
      good  == \A nm \in names : Defined(k.g, nm) /\ nm \in prod
      deep  == MaxI(0, k.par.depth)
      cut   == ~k.par.def /\ deep <= 4
      cap   == TLCEval(Capped(k.g, k.root, MaxI(0, k.par.rep)))
      cg    == TLCEval(IF cut /\ good THEN DepthCapped(cap, deep) ELSE cap)
      root  == IF cut THEN AtDepth(k.root, 0) ELSE k.root
      one(w, a) ==
        IF w.x # "" THEN {<<w.x>>}
        ELSE (IF ~w.same THEN {<<"not reproducible">>} ELSE {})
             \cup (IF w.long THEN {}
                   ELSE LET c == Ctx(k.g, w.w)
                            d == [Ctx(cg, w.w) EXCEPT !.thr = IF ~a.rnd /\ a.tape = <<>> THEN 0 ELSE IF k.par.def THEN 4096 ELSE MaxI(0, k.par.len)]
                        IN  IF c.n \notin Reach(c, names)[0][k.root] THEN {<<"not a word", w.w>>}
                            ELSE IF d.n \notin Reach(d, ReachNames(cg, {root}))[0][root] THEN {<<"a word beyond the limits", w.w>>}
                            ELSE {})
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE IF ~Defined(k.g, k.root) THEN (IF o.k # "unknown" THEN {<<"unknown rule", o.k>>} ELSE {})
      ELSE IF ~good THEN (IF o.k = "ok" THEN {<<"should be refused">>} ELSE {})
      ELSE IF o.k # "ok" THEN {<<"refused", o.k>>}
      ELSE UNION { one(o.ws[i], k.par.ws[i]) : i \in DOMAIN o.ws }
=============================================================================
