-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation.  The recorder writes one line per event (what was     *)
(* asked of the real code, what it answered); each event is a step that is *)
(* taken whatever the answer, and the answers the specification does not   *)
(* allow are collected and reported.  Lanes only let TLC's workers share   *)
(* the lines.                                                              *)
(***************************************************************************)
EXTENDS ConformEng, Json, IOUtils

Txt == INSTANCE ConformText
Gen == INSTANCE ConformGen
Gr == INSTANCE ConformGraph
Code == INSTANCE ConformCode
Bud == INSTANCE ConformBudget
Cli == INSTANCE ConformCli
Ses == INSTANCE Session
Work == INSTANCE ConformWork
Scale == INSTANCE ConformScale

Cases == ndJsonDeserialize(IOEnv.CASES)
NCases == Len(Cases)
Lanes == 64

Bad(k) ==
  CASE k.k = "iv"     -> BadIV(k)
    [] k.k = "forest" -> BadForest(k)
    [] k.k = "count"  -> BadCount(k)
    [] k.k = "tree"   -> BadTree(k)
    [] k.k = "diag"   -> BadDiag(k)
    [] k.k = "read"   -> Txt!BadRead(k)
    [] k.k = "round"  -> Txt!BadRound(k)
    [] k.k = "dep"    -> Gen!BadDep(k)
    [] k.k = "re"     -> Gen!BadRe(k)
    [] k.k = "gw"     -> Gen!BadGw(k)
    [] k.k = "ag"     -> Gen!BadAg(k)
    [] k.k = "tg"     -> Gr!BadTg(k)
    [] k.k = "tw"     -> Gr!BadTw(k)
    [] k.k = "nx"     -> Gr!BadNx(k)
    [] k.k = "rd"     -> Gr!BadRd(k)
    [] k.k = "full"   -> Gr!BadFull(k)
    [] k.k = "gp"     -> Code!BadGp(k)
    [] k.k = "gb"     -> Code!BadGb(k)
    [] k.k = "bg"     -> Bud!BadBg(k)
    [] k.k = "cli"    -> Cli!BadCli(k)
    [] k.k = "ses"    -> Ses!BadSes(k)
    [] k.k = "wk"     -> Work!BadWk(k)
    [] k.k = "sc"     -> Scale!BadSc(k)

VARIABLES pos, rejected
vars == <<pos, rejected>>

Init == pos \in 1..(IF NCases < Lanes THEN NCases ELSE Lanes) /\ rejected = FALSE

Report(k, b) == IF b = {} THEN TRUE
                ELSE PrintT("REJECTED " \o ToJson([id |-> k.id, why |-> ToString(b)]))

Next == /\ pos <= NCases
        /\ LET k == Cases[pos]
               b == TLCEval(Bad(k))
           IN  Report(k, b) /\ rejected' = (b # {})
        /\ pos' = pos + Lanes

Spec == Init /\ [][Next]_vars
=============================================================================
