---------------------------- MODULE ConformWork -----------------------------
(***************************************************************************)
(* C22: every call on grammars with an astronomical number of ways through *)
(* them answers, and what it answers is what the grammar says.  A call     *)
(* that does not answer leaves no event, which is reported as such.        *)
(***************************************************************************)
EXTENDS Abnf, Rules

LOCAL Budgeted(k, e) == IF k.par.bud THEN {"ok", e} ELSE {"ok"}

BadWk(k) ==
  LET o     == k.obs
      names == TLCEval(ReachNames(k.g, {k.root}))
      prod  == TLCEval(ProductiveNames(k.g, names))
      cyc   == HasCycle(k.g, k.root)
      word(w) == LET c == Ctx(k.g, w) IN c.n \in Reach(c, names)[0][k.root]
      bad(i) ==
        LET c == Ctx(k.g, k.ins[i])
            x == o.ins[i]
            T == TLCEval(Reach(c, names))
            d == c.n \in T[0][k.root]
            n == IF d THEN Weights(c, names, T)[0][k.root][c.n] ELSE 0
            eng(nm, kk, v, a, t, cnt) ==
              IF kk \notin Budgeted(k, "forest") THEN {<<i, nm, kk>>}
              ELSE IF kk # "ok" THEN {}
              ELSE (IF v # d THEN {<<i, nm, "validity">>} ELSE {})
                   \cup (IF ~k.par.not /\ t # d THEN {<<i, nm, "tree">>} ELSE {})
                   \cup (IF ~k.par.cnt THEN {}
                         ELSE (IF cnt # n THEN {<<i, nm, "count", cnt, n>>} ELSE {})
                              \cup (IF a # (n \notin {0, 1}) THEN {<<i, nm, "ambiguity">>} ELSE {}))
        IN  (IF x.iv # d THEN {<<i, "recognition">>} ELSE {})
            \cup eng("forest", x.fk, x.fv, x.fa, x.ft, x.fn)
            \cup eng("subtree set", x.bk, x.bv, x.ba, x.bt, x.bn)
            \cup (IF x.fk = "ok" /\ x.fd = d THEN {<<i, "diagnostic">>} ELSE {})
            \cup (IF k.par.gph /\ x.nx # d THEN {<<i, "expected next">>} ELSE {})
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE IF o.rk # "ok" THEN {<<"reading", o.rk>>}
      ELSE (IF o.cyc # cyc THEN {<<"cycle">>} ELSE {})
           \cup (IF o.dag # Acyclic(k.g) THEN {<<"dag">>} ELSE {})
           \cup (IF o.ck # "ok" THEN {<<"parser", o.ck>>} ELSE {})
           \cup (IF o.sk # "ok" THEN {<<"validation", o.sk>>} ELSE {})
           \cup (IF k.par.gph /\ o.nxk # "ok" THEN {<<"graph", o.nxk>>} ELSE {})
           \cup (IF o.rek \notin (IF cyc THEN {"cyclic"} ELSE {"ok", "toolarge"}) THEN {<<"regex", o.rek>>} ELSE {})
           \cup (IF o.tgk \notin (IF cyc THEN {"cyclic"} ELSE {"ok", "nodes", "threshold"}) THEN {<<"expanded graph", o.tgk>>} ELSE {})
           \cup (IF o.tfk \notin (IF cyc THEN {"cyclic"} ELSE {"ok", "nodes", "threshold"}) THEN {<<"graph", o.tfk>>} ELSE {})
           \cup (IF ~k.par.big /\ (o.ak = "ok") # (names \subseteq prod) THEN {<<"descent", o.ak>>} ELSE {})
           \cup (IF ~k.par.big /\ (o.gk = "ok") # (k.root \in prod) THEN {<<"seeded", o.gk>>} ELSE {})
           \cup { <<"seeded", w>> : w \in { o.gw[j] : j \in { j \in DOMAIN o.gw : ~word(o.gw[j]) } } }
           \cup { <<"descent", w>> : w \in { o.aw[j] : j \in { j \in DOMAIN o.aw : ~word(o.aw[j]) } } }
           \cup UNION { bad(i) : i \in DOMAIN k.ins }
=============================================================================
