------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Histories of calls (C09).  A session owns texts and inputs (buffers);   *)
(* calls read grammars out of the texts and ask things of them.  What the  *)
(* built-in rules, the ABNF grammar, a grammar or a buffer is worth never  *)
(* changes; a call answers what it answers alone.                          *)
(*                                                                         *)
(* The state of a session: the value of the built-in rules, of the ABNF    *)
(* grammar, of the buffers, and of the grammar of each text once it is     *)
(* read ("" before).                                                       *)
(***************************************************************************)
EXTENDS ConformText

StateOf(s) == [core |-> s.core, abnf |-> s.abnf, buf |-> s.buf, gr |-> s.gr]

\* the steps a session may take: a grammar appears, nothing else happens
Step(s, t) ==
  /\ t.core = s.core
  /\ t.abnf = s.abnf
  /\ t.buf = s.buf
  /\ Len(t.gr) = Len(s.gr)
  /\ \A i \in DOMAIN s.gr : t.gr[i] # s.gr[i] => s.gr[i] = ""

\* ... and only those of the text at hand
StepOf(s, t, c) == Step(s, t) /\ \A i \in DOMAIN s.gr : t.gr[i] # s.gr[i] => i = c.g + 1

Changed(s, t) ==
  (IF t.core # s.core THEN {"the built-in rules"} ELSE {})
  \cup (IF t.abnf # s.abnf THEN {"the ABNF grammar"} ELSE {})
  \cup (IF t.buf # s.buf THEN {"a buffer"} ELSE {})
  \cup (IF \E i \in DOMAIN s.gr : t.gr[i] # s.gr[i] /\ s.gr[i] # "" THEN {"a grammar"} ELSE {})

BadSes(k) ==
  LET p == k.par
      o == k.obs
      H == <<o.init>> \o o.h
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE UNION { LET c == p.calls[H[i].c]
                   IN  (IF StepOf(StateOf(H[i - 1]), StateOf(H[i]), c) THEN {}
                        ELSE {<<"step", i - 1, c.op, "changes", Changed(StateOf(H[i - 1]), StateOf(H[i]))>>})
                       \cup (IF H[i].a = o.alone[H[i].c] THEN {}
                             ELSE {<<"step", i - 1, c.op, "does not answer what it answers alone", H[i].a>>})
                       \cup (IF o.kept[i - 1] THEN {} ELSE {<<"the result of step", i - 1, c.op, "changed later">>})
                 : i \in 2..Len(H) }
           \cup { <<"at once with others", o.conc[i]>> : i \in DOMAIN o.conc }
           \cup (IF Step(StateOf(H[Len(H)]), StateOf(o.last)) THEN {}
                 ELSE {<<"calls at once change", Changed(StateOf(H[Len(H)]), StateOf(o.last))>>})
           \cup (IF \A i \in DOMAIN o.core : o.core[i].a = CoreText(o.core[i].n) THEN {} ELSE {<<"the built-in rules are not those of the RFC">>})
           \cup UNION { ReadBad(p.texts[i].src, p.texts[i].val, p.texts[i].red, o.reads[i]) : i \in DOMAIN p.texts }
=============================================================================
