---------------------------- MODULE ConformBudget ----------------------------
(* Budgets (C18): against the outcome without a budget, every call under a *)
(* budget gives that very outcome, or refuses with the budget's own error. *)
EXTENDS Rules

OwnError(s) == CASE s = "forest" -> "forest" [] s = "bsr" -> "forest"
                 [] s = "slots" -> "slots" [] s = "bslots" -> "slots"
                 [] s = "graph" -> "nodes" [] s = "regex" -> "toolarge"

\* Nothing but one derivation is ever tried: no alternative, no option, no
\* choice of a count, nothing repeated.
RECURSIVE Straight(_)
Straight(alt) == /\ Len(alt) = 1
                 /\ \A j \in DOMAIN alt[1] : LET r == alt[1][j] IN
                      /\ r.mn = 1 /\ r.mx = 1 /\ r.e.t \in {"chr", "ser", "rng", "ref", "grp"}
                      /\ r.e.t = "grp" => Straight(r.e.a)
AllStraight(gr, root) == \A nm \in ReachNames(gr, {root}) : Straight(RuleAlt(gr, nm))
RECURSIVE NoRef(_)
NoRef(alt) == \A i \in DOMAIN alt : \A j \in DOMAIN alt[i] : LET e == alt[i][j].e IN
                e.t # "ref" /\ (e.t \in {"grp", "opt"} => NoRef(e.a))

RECURSIVE NoGroup(_)
NoGroup(alt) == \A i \in DOMAIN alt : \A j \in DOMAIN alt[i] : alt[i][j].e.t \notin {"grp", "opt"}

\* What is built is exactly what is returned, when it is known to be so.
ExactNeed(k, r) ==
  CASE r.s \in {"bsr", "regex"} -> r.full = "ok"
    [] r.s = "forest" -> /\ r.full = "ok" /\ r.size > 0
                         /\ AllStraight(k.g, k.root)
                         /\ LET c == Ctx(k.g, k.ins[r.in]) IN c.n \in Reach(c, ReachNames(k.g, {k.root}))[0][k.root]
    [] r.s = "graph" -> r.full = "ok" /\ Straight(RuleAlt(k.g, k.root)) /\ NoRef(RuleAlt(k.g, k.root)) /\ ~k.par.chars
                        /\ AltProd({}, RuleAlt(k.g, k.root))    \* or else parts of it are out of reach
    [] r.s \in {"slots", "bslots"} -> r.full = "ok" /\ AllStraight(k.g, k.root)
                                     /\ \A nm \in ReachNames(k.g, {k.root}) : NoGroup(RuleAlt(k.g, nm))
    [] OTHER -> FALSE

TryBad(k, r, t) ==
  IF t.k = OwnError(r.s)
  THEN (IF t.m = 0 THEN {<<r.s, r.in, "refused without a budget">>} ELSE {})
       \cup (IF t.lim # t.m THEN {<<r.s, r.in, t.m, "another limit", t.lim>>} ELSE {})
       \cup (IF ~t.none THEN {<<r.s, r.in, t.m, "refused, yet something is returned">>} ELSE {})
  ELSE IF k.par.huge THEN (IF r.s \in {"slots", "bslots"} \/ t.k \in {"ok", "cyclic"} THEN {} ELSE {<<r.s, t.m, "another error", t.k>>})
                          \cup (IF r.s \notin {"slots", "bslots"} /\ t.k = "ok" /\ t.size > t.m THEN {<<r.s, t.m, "beyond the budget">>} ELSE {})
  \* several faults may justify a refusal: any of them may be reported
  ELSE IF r.full # "ok" /\ t.k # "ok" THEN {}
  ELSE IF t.k # r.full THEN {<<r.s, r.in, t.m, "another outcome", t.k, r.full>>}
  ELSE (IF ~t.same THEN {<<r.s, r.in, t.m, "another answer">>} ELSE {})
       \cup (IF t.k = "ok" /\ t.m > 0 /\ r.s \in {"forest", "bsr", "graph", "regex"} /\ t.size > t.m
             THEN {<<r.s, r.in, t.m, "beyond the budget", t.size>>} ELSE {})
\* the size that counts: what is returned, or a nonterminal per rule
Needed(k, r) == IF r.s \in {"slots", "bslots"} THEN Cardinality(ReachNames(k.g, {k.root})) ELSE r.size
RunBad(k, r) ==
  IF r.x # "" THEN {<<r.s, r.in, r.x>>}
  ELSE UNION { TryBad(k, r, r.t[i]) : i \in DOMAIN r.t }
       \* more never turns a success into a refusal
       \cup { <<r.s, r.in, "refused with more", r.t[j].m>> :
              j \in { y \in DOMAIN r.t : /\ r.t[y].k = OwnError(r.s)
                                         /\ \E i \in DOMAIN r.t : r.t[i].m # 0 /\ r.t[i].m < r.t[y].m /\ r.t[i].k = "ok" } }
       \* the boundary
       \cup (IF ExactNeed(k, r)
             THEN { <<r.s, r.in, "not refused exactly beyond", Needed(k, r), r.t[j].m>> :
                    j \in { y \in DOMAIN r.t : r.t[y].m # 0 /\ (r.t[y].k = OwnError(r.s)) # (Needed(k, r) > r.t[y].m) } }
             ELSE {})
BadBg(k) == IF k.obs.x # "" THEN {<<k.obs.x>>}
            ELSE UNION { RunBad(k, k.obs.r[i]) : i \in DOMAIN k.obs.r }
=============================================================================
