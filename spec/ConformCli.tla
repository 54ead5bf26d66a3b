----------------------------- MODULE ConformCli ------------------------------
(* The commands (C20): what a command line stands for, as options of the   *)
(* library, and what a run of it must leave behind.                        *)
EXTENDS Rules

On(f) == IF f = 1 THEN 1 ELSE 0

\* the options of the library that the flags stand for
OptionsOf(p) ==
  CASE p.cmd = "validate"         -> [val |-> IF p.sem = 0 THEN 0 ELSE 1]         \* on by default
    [] p.cmd = "generate"         -> [rep |-> p.rep, thr |-> p.thr]
    [] p.cmd = "regex"            -> [re |-> 0]
    [] p.cmd = "transition-graph" -> [rules |-> On(p.rules), chars |-> On(p.chars), nums |-> On(p.nums), thr |-> p.thr]
    [] p.cmd = "gen"              -> [val |-> p.sem]

\* the command line itself is refused
Misused(p) == p.input = "missing" \/ (p.cmd = "gen" /\ (p.input = "none" \/ p.pkg = ""))

Failed(o) == (IF o.st = 0 THEN {<<"exit status of a failure">>} ELSE {})
             \cup (IF ~o.none THEN {<<"a failure writes on the standard output">>} ELSE {})
             \cup (IF ~o.err THEN {<<"a failure is silent">>} ELSE {})
             \cup (IF o.made /\ ~o.kept THEN {<<"a failure writes a file">>} ELSE {})

BadCli(k) ==
  LET o == k.obs
      p == k.par
      i == CHOOSE x \in DOMAIN o.lib : o.lib[x].o = OptionsOf(p)
      l == o.lib[i]
      random == p.cmd = "generate" /\ p.seed < 0
      words(w) == LET c == Ctx(k.g, w) IN c.n \in Reach(c, ReachNames(k.g, {k.root}))[0][k.root]
      tofile == p.cmd = "gen" /\ p.out \in {"file", "existing"}
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE (IF o.junk # <<>> THEN {<<"files left behind", o.junk>>} ELSE {})
           \cup (IF Misused(p) THEN Failed(o)
                 ELSE IF l.k # "ok" THEN Failed(o) \cup (IF o.msg[i] THEN {} ELSE {<<"another error than the library's">>})
                 ELSE IF p.cmd = "gen" /\ p.out = "nodir" THEN Failed(o)
                 ELSE IF o.st # 0 THEN {<<"exit status of a success", o.st>>}
                 ELSE IF tofile THEN (IF ~o.made \/ o.file # l.out THEN {<<"file written">>} ELSE {})
                                     \cup (IF ~o.none THEN {<<"writes both on the standard output and to a file">>} ELSE {})
                 ELSE (IF o.made THEN {<<"writes a file">>} ELSE {})
                      \cup (IF p.cmd = "gen" THEN (IF o.out # l.out THEN {<<"standard output">>} ELSE {})
                            ELSE IF random THEN (IF ~o.long /\ p.nat /\ ~words(o.word) THEN {<<"not a word", o.word>>} ELSE {})
                            ELSE IF o.out # l.ln THEN {<<"standard output">>} ELSE {}))
=============================================================================
