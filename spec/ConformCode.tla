----------------------------- MODULE ConformCode -----------------------------
(* What generated standalone parsers must be and answer (C05, C18).        *)
EXTENDS Abnf

Txt == INSTANCE ConformText

\* answers of a compiled parser to the inputs, as for the library's engines
AnswersBad(k, names, ans(_)) ==
  LET one(i) ==
        LET c == Ctx(k.g, k.ins[i])
            a == ans(i)
            T == TLCEval(Reach(c, names))
            d == c.n \in T[0][k.root]
            n == IF d THEN Weights(c, names, T)[0][k.root][c.n] ELSE 0
        IN  IF a.x # "" THEN {<<i, a.x>>}
            ELSE (IF a.v # d THEN {<<i, "validity", a.v>>} ELSE {})
                 \cup (IF a.n # n THEN {<<i, "count", a.n, n>>} ELSE {})
                 \cup (IF a.a # (n \notin {0, 1}) THEN {<<i, "ambiguity", a.a>>} ELSE {})
                 \cup (IF ~d THEN (IF a.t # <<>> THEN {<<i, "tree of a non-word">>} ELSE {})
                       ELSE IF Len(a.t) # 1 THEN {<<i, "no tree">>}
                       ELSE IF n = Infty THEN (IF a.t[1].r = k.root /\ a.t[1].s = 0 /\ a.t[1].e = c.n /\ Sketch(c, T, a.t[1], 0, c.n)
                                               THEN {} ELSE {<<i, "not made of the rules' extents">>})
                       ELSE IF ~TreeOk(k.g, k.root, k.ins[i], a.t[1]) THEN {<<i, "not a derivation">>} ELSE {})
  IN  UNION { one(i) : i \in DOMAIN k.ins }

SourceBad(o) == (IF ~o.src THEN {<<"no source">>} ELSE {})
                \cup (IF o.cc # "" THEN {<<"does not compile", o.cc>>} ELSE {})
                \cup (IF o.cc = "" /\ ~o.std THEN {<<"imports more than the standard library">>} ELSE {})
                \cup (IF o.cc = "" /\ ~o.pkg THEN {<<"another package name">>} ELSE {})
                \cup (IF ~o.same THEN {<<"not the same source twice">>} ELSE {})

\* C05
BadGp(k) ==
  LET o == k.obs
      names == TLCEval(ReachNames(k.g, {k.root}))
      read == IF k.par.src = <<>> THEN "ok" ELSE Txt!Outcome(k.par.src, TRUE, FALSE).k
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE IF read # "ok" THEN (IF o.k = "ok" \/ o.src THEN {<<"should be refused", read>>} ELSE {})
      ELSE IF k.par.src # <<>> THEN {}
      ELSE IF ~Defined(k.g, k.root) THEN (IF o.k # "unknown" \/ o.src THEN {<<"unknown rule", o.k>>} ELSE {})
      ELSE IF o.k # "ok" THEN {<<"refused", o.k>>}
      ELSE IF SourceBad(o) # {} THEN SourceBad(o)
      ELSE IF Len(o.r) # Len(k.ins) THEN {<<"answers missing">>}
      ELSE AnswersBad(k, names, LAMBDA i : o.r[i]) \cup { <<o.late[i]>> : i \in DOMAIN o.late }

\* C18: under a budget of b.m elements (0: none), against the answer without
BudBad(i, a, b) ==
  IF b.err THEN {<<i, b.m, "another error">>}
  ELSE IF b.over THEN (IF b.m = 0 THEN {<<i, "refused without a budget">>} ELSE {})
  ELSE (IF b.v # a.v \/ b.n # a.n THEN {<<i, b.m, "another answer">>} ELSE {})
       \cup (IF b.m > 0 /\ b.size > b.m THEN {<<i, b.m, "beyond the budget", b.size>>} ELSE {})
BadGb(k) ==
  LET o == k.obs
      one(i) == LET a == o.r[i]
                    z == CHOOSE b \in { a.b[j] : j \in DOMAIN a.b } : b.m = 0
                IN  IF a.x # "" THEN {<<i, a.x>>}
                    ELSE IF k.par.big
                    THEN LET c == Ctx(k.g, k.ins[i])
                         IN  IF a.b = <<>> /\ a.v # (c.n \in Reach(c, ReachNames(k.g, {k.root}))[0][k.root])
                             THEN {<<i, "another answer under a budget">>} ELSE {}
                    ELSE UNION { BudBad(i, a, a.b[j]) : j \in DOMAIN a.b }
                         \cup { <<i, "refused with enough", a.b[j].m>> :
                                j \in { x \in DOMAIN a.b : a.b[x].over /\ ~z.over /\ ~z.err /\ a.b[x].m >= z.size } }
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE IF ~Defined(k.g, k.root) THEN {}
      ELSE IF o.k # "ok" \/ SourceBad(o) # {} THEN {<<"no parser", o.k>>}
      ELSE IF Len(o.r) # Len(k.ins) THEN {<<"answers missing">>}
      ELSE UNION { one(i) : i \in DOMAIN k.ins }
=============================================================================
