---------------------------- MODULE ConformText -----------------------------
(* What reading ABNF source must answer (C07, C08, C10).                   *)
EXTENDS AbnfText

\* a grammar observed: sequence of [key, n, a]; names in lower case
ObsMap(g) == [x \in { g[i].n : i \in DOMAIN g } |-> (CHOOSE i \in DOMAIN g : g[i].n = x)]

SameGrammar(m, g) ==
  /\ \A i, j \in DOMAIN g : g[i].n = g[j].n => i = j       \* one rule per name
  /\ \A i \in DOMAIN g : g[i].key = g[i].n
  /\ { g[i].n : i \in DOMAIN g } = DOMAIN m
  /\ \A i \in DOMAIN g : g[i].a = m[g[i].n]

ReadBad(src, val, red, o) ==
  LET e == TLCEval(Outcome(src, val, red))
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE CASE e.k = "ok"      -> IF o.k # "ok" THEN {<<"refuses a good text", o.k>>}
                                   ELSE IF ~SameGrammar(e.m, o.g) THEN {<<"another grammar">>} ELSE {}
             [] e.k = "syntax"  -> IF o.k # "syntax" THEN {<<"should be a syntax error, is", o.k>>} ELSE {}
             [] e.k = "refused" -> IF o.k # e.err THEN {<<"should be refused as", e.err, o.k>>}
                                   ELSE IF o.n # e.n THEN {<<"names another rule">>} ELSE {}
             [] e.k = "invalid" ->
                  CASE o.k = "dep" -> IF o.n \in e.f.dep THEN {} ELSE {<<"names another dependency">>}
                    [] o.k = "rep" -> IF \E r \in e.f.rep : r = o.rp THEN {} ELSE {<<"names another repetition">>}
                    [] o.k = "num" -> IF <<o.b, o.d>> \in e.f.num THEN {} ELSE {<<"names another value">>}
                    [] OTHER -> {<<"should be invalid, is", o.k>>}

BadRead(k) == ReadBad(k.src, k.val, k.red, k.obs)

\* C10: printed then read again (both renderings, and each rule alone)
BadRound(k) ==
  LET e == TLCEval(Outcome(k.src, FALSE, k.red))
      one(nm, q, o) == IF o.x # "" THEN {<<nm, o.x>>}
                       ELSE IF o.k # "ok" THEN {<<nm, "does not read back", o.k>>}
                       ELSE IF ~SameGrammar(e.m, o.g) THEN {<<nm, "reads back as another grammar">>}
                       ELSE LET p == TLCEval(Outcome(q, FALSE, k.red))     \* the text itself
                            IN  IF p.k # "ok" THEN {<<nm, "is not ABNF">>}
                                ELSE IF p.m # e.m THEN {<<nm, "denotes another grammar">>} ELSE {}
  IN  IF e.k # "ok" THEN {<<"recorder: not a good text">>}
      ELSE one("plain", k.plain, k.obs.plain) \cup one("pretty", k.pretty, k.obs.pretty)
           \cup one("rules", k.rules, k.obs.rules)
=============================================================================
