---------------------------- MODULE ConformGraph -----------------------------
(* What transition graphs, their generator and their readers must answer   *)
(* (C13, C14, C15, C16).                                                   *)
EXTENDS Graph, Octets

RECURSIVE RepsIn(_)
RepsIn(alt) == UNION { UNION { {alt[i][j]} \cup (IF alt[i][j].e.t \in {"grp", "opt"} THEN RepsIn(alt[i][j].e.a) ELSE {})
                               : j \in DOMAIN alt[i] } : i \in DOMAIN alt }

\* every reason to refuse to build the graph of root
TooBig(el) == CASE el.t = "ser" -> \E i \in DOMAIN el.v : el.v[i] > MaxRune
                [] el.t = "rng" -> el.lo > MaxRune \/ el.hi > MaxRune
                [] OTHER -> FALSE
Refusals(gr, root, p) ==
  LET visited == IF p.rules THEN ReachNames(gr, {root}) ELSE {root}
      R   == UNION { RepsIn(RuleAlt(gr, nm)) : nm \in visited }
      all == UNION { RepsIn(gr[nm]) : nm \in DOMAIN gr }
  IN  IF ~Defined(gr, root) THEN {"unknown"}
      ELSE (IF p.rules
            THEN (IF \E r \in all : r.e.t = "ref" /\ ~Defined(gr, r.e.n) THEN {"dep"} ELSE {})
                 \cup (IF \E r \in all : r.mx # Inf /\ r.mn > r.mx THEN {"rep"} ELSE {})
                 \cup (IF \E r \in all : TooBig(r.e) THEN {"num"} ELSE {})
            ELSE {})
           \cup (IF HasCycle(gr, root) THEN {"cyclic"} ELSE {})
           \cup (IF \E r \in R : r.e.t = "pro" THEN {"tgprose"} ELSE {})
           \cup (IF \E r \in R : (IF r.mx = Inf THEN r.mn ELSE r.mx) > p.thr THEN {"threshold"} ELSE {})
           \cup (IF \E r \in R : r.mx # Inf /\ r.mn > r.mx THEN {"minmax"} ELSE {})

Expanded(gx, p) ==
  \A n \in Nodes(gx) : LET el == gx.e[n] IN
     CASE el.t = "ref" -> ~p.rules
       [] el.t = "chr" -> p.chars => (Len(el.v) = 1 /\ (el.s \/ Cardinality(Casings(el.v[1])) = 1))
       [] el.t = "ser" -> p.nums => Len(el.v) = 1
       [] el.t = "rng" -> ~p.nums
       [] OTHER -> FALSE

\* what is written in a drawn node, where it can be written as it is
RECURSIVE Dotted(_, _)
Dotted(d, k) == IF k > Len(d) THEN "" ELSE "." \o d[k] \o Dotted(d, k + 1)
Labelled(el, x) ==
  CASE el.t = "ref" -> x.lb = el.nm
    [] el.t = "chr" -> (\A i \in DOMAIN el.v : el.v[i] \in 33..126 \ {34, 96}) => x.lc = el.v
    [] el.t = "ser" -> x.lb = "0" \o el.b \o el.d[1] \o Dotted(el.d, 2)
    [] el.t = "rng" -> x.lb = "0" \o el.b \o el.d[1] \o "-" \o el.d[2]
    [] OTHER -> TRUE
\* the drawing shows the nodes, their links, the entries and the ends
DrawnBad(gx, o) ==
  LET ns == RangeOf(o.mn)
  IN  (IF { x.i : x \in ns } # Nodes(gx) \/ Len(o.mn) # Cardinality(Nodes(gx)) THEN {<<"drawn nodes">>} ELSE {})
   \cup (IF \E x \in ns : x.end # (x.i \in RangeOf(gx.fi)) \/ x.ent # (x.i \in RangeOf(gx.en)) THEN {<<"drawn entries or ends">>} ELSE {})
   \cup (IF \E x \in ns : x.i \in Nodes(gx) /\ ~Labelled(gx.e[x.i], x) THEN {<<"what is written in a drawn node">>} ELSE {})
   \cup (IF { <<x[1], x[2]>> : x \in RangeOf(o.ml) } # Edges(gx) THEN {<<"drawn links">>} ELSE {})
   \cup (IF o.me # (0 \in RangeOf(gx.en)) THEN {<<"drawn empty node">>} ELSE {})

\* C13
BadTg(k) ==
  LET o  == k.obs
      R  == TLCEval(Refusals(k.g, k.root, k.par))
      gx == o.gx
      names == TLCEval(ReachNames(k.g, {k.root}))
      one(i) == LET c == Ctx(k.g, k.ins[i])
                    T == TLCEval(Reach(c, names))
                    d == c.n \in T[0][k.root]
                IN  IF Spells(c, T, gx) = d THEN {}
                    ELSE {<<i, IF d THEN "no walk spells a word" ELSE "a walk spells a non-word">>}
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE IF R # {} THEN (IF o.k \in R THEN {} ELSE {<<"should be refused as", R, o.k>>})
      ELSE IF o.k # "ok" THEN {<<"refused", o.k>>}
      ELSE IF o.big THEN {}
      ELSE IF ~WellFormed(gx) THEN {<<"an edge leads to the empty node">>}
      ELSE (IF Expanded(gx, k.par) THEN {} ELSE {<<"not expanded as asked">>})
           \cup DrawnBad(gx, o)
           \cup UNION { one(i) : i \in DOMAIN k.ins }

\* C14
BadTw(k) ==
  LET o  == k.obs
      gx == o.gx
      names == TLCEval(ReachNames(k.g, {k.root}))
      full == \A n \in Nodes(gx) : gx.e[n].t # "ref"
      empty == Live(gx) = {} /\ ~HasEmpty(gx)
      lim(a) == [len |-> k.par.len, reps |-> k.par.reps, steps |-> k.par.steps, lazy |-> ~a.rnd /\ a.tape = <<>>]
      one(w, a) ==
        IF w.x # "" THEN {<<w.x>>}
        ELSE (IF ~w.same THEN {<<"not reproducible">>} ELSE {})
             \cup (IF w.long THEN {}
                   ELSE LET c == Ctx(k.g, w.w)
                            T == TLCEval(Reach(c, names))
                        IN  IF c.n \notin T[0][k.root] THEN {<<"not a word", w.w>>}
                            ELSE IF ~Steered(c, T, gx, lim(a)) THEN {<<"a word beyond the limits", w.w>>} ELSE {})
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE IF ~full THEN (IF o.k = "ok" THEN {<<"should be refused">>} ELSE {})
      ELSE IF o.k # "ok" THEN {<<"refused", o.k>>}
      ELSE IF empty THEN {}
      ELSE UNION { one(o.ws[i], k.par.ws[i]) : i \in DOMAIN o.ws }

\* C21: all the words of a rule that has finitely many, once capped
RECURSIVE AltWords(_, _), RepWords(_, _, _)
ElemWords(gr, el) ==
  CASE el.t = "ref" -> AltWords(gr, RuleAlt(gr, el.n))
    [] el.t = "grp" -> AltWords(gr, el.a)
    [] el.t = "opt" -> {<<>>} \cup AltWords(gr, el.a)
    [] OTHER        -> Vars(el)
Cross(A, B) == { a \o b : a \in A, b \in B }
\* exactly k occurrences
RepWords(gr, el, k) == IF k = 0 THEN {<<>>} ELSE Cross(RepWords(gr, el, k - 1), ElemWords(gr, el))
RECURSIVE ConcatWords(_, _, _)
ConcatWords(gr, ct, k) ==
  IF k > Len(ct) THEN {<<>>}
  ELSE Cross(TLCEval(UNION { RepWords(gr, ct[k].e, n) : n \in ct[k].mn..ct[k].mx }), ConcatWords(gr, ct, k + 1))
AltWords(gr, alt) == UNION { ConcatWords(gr, alt[i], 1) : i \in DOMAIN alt }
BadFull(k) ==
  LET o  == k.obs
      cg == TLCEval(CASE k.par.how = "gen"   -> CappedTo(k.g, k.root, k.par.rep)
                      [] k.par.how = "ast"   -> Capped(k.g, k.root, k.par.rep)
                      [] k.par.how = "graph" -> k.g)
      L  == TLCEval(AltWords(cg, RuleAlt(cg, k.root)))
      ws == RangeOf(o.ws)
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE IF L = {} THEN {}
      ELSE IF o.k # "ok" THEN {<<"refused", o.k>>}
      ELSE (IF ws \subseteq L THEN {} ELSE {<<"not words", ws \ L>>})
           \cup (IF L \subseteq ws THEN {} ELSE {<<"never generated", L \ ws>>})

\* C15: near misses, then expected octets
Unanalysable(gr, names) ==
  \E nm \in names : \E r \in RepsIn(RuleAlt(gr, nm)) :
     r.e.t = "rng" /\ r.e.hi > 127 /\ ScalarCount(r.e.lo, r.e.hi) > 65536
\* the edit a label tells of leads from what the generator gives to the near miss
Edited(gr, names, m) ==
  LET l == m.lab
      b == m.base
      w == m.w
      from(i) == SubSeq(b, i, Len(b))
      past == { IF l.op = "below" THEN e.lo - 1 ELSE MinO(e.hi, MaxRune) + 1 :
                e \in { r.e : r \in { x \in UNION { RepsIn(RuleAlt(gr, nm)) : nm \in names } : x.e.t = "rng" } } }
  IN  CASE l.op = ""    -> TRUE
        [] l.op = "sub" -> l.off < Len(b) /\ b[l.off + 1] # l.b /\ w = SubSeq(b, 1, l.off) \o <<l.b>> \o from(l.off + 2)
        [] l.op = "cut" -> l.n > 0 /\ l.n <= Len(b) /\ l.off = Len(w) /\ w = SubSeq(b, 1, Len(b) - l.n)
        [] l.op = "add" -> w = Append(b, l.b)
        [] l.op = "del" -> l.off < Len(b) /\ w = SubSeq(b, 1, l.off) \o from(l.off + 2)
        [] l.op \in {"below", "above"} ->
             /\ l.off < Len(b)
             /\ LET d == DecodeAt(b, l.off)
                IN  d.n > 0 /\ \E x \in past : w = SubSeq(b, 1, l.off) \o Encode(IF IsScalar(x) THEN x ELSE 65533) \o from(l.off + d.n + 1)
        [] OTHER -> TRUE          \* told in other words
BadNx(k) ==
  LET o  == k.obs
      names == TLCEval(ReachNames(k.g, {k.root}))
      der(w) == LET c == Ctx(k.g, w) IN c.n \in Reach(c, names)[0][k.root]
      miss(m) == IF m.x # "" THEN {<<m.x>>}
                 ELSE IF ~m.same THEN {<<"near miss not reproducible">>}
                 \* an octet that is in no text can always be added
                 ELSE IF ~m.ok THEN {<<"no near miss">>}
                 ELSE IF m.long THEN {}
                 ELSE IF der(m.w) THEN {<<"a near miss is a word", m.w>>}
                 ELSE IF ~Edited(k.g, names, m) THEN {<<"not the edit that is told", m.base, m.lab, m.w>>} ELSE {}
      nxt(i) == LET e == o.nx[i]
                    w == k.ins[i]
                IN  IF e.x # "" THEN {<<i, e.x>>}
                    ELSE IF ~e.ok THEN (IF Unanalysable(k.g, names) THEN {} ELSE {<<i, "declines to analyse">>})
                    ELSE (IF e.acc # der(w) THEN {<<i, "says a word is none, or a non-word one">>} ELSE {})
                         \cup (IF RangeOf(e.next) # NextOctets(k.g, k.root, w)
                               THEN {<<i, "expected octets", RangeOf(e.next) \ NextOctets(k.g, k.root, w), NextOctets(k.g, k.root, w) \ RangeOf(e.next)>>} ELSE {})
                         \cup (IF Len(e.next) # Cardinality(RangeOf(e.next)) THEN {<<i, "an octet twice">>} ELSE {})
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE IF o.k # "ok" THEN {<<"refused", o.k>>}
      ELSE UNION { miss(o.ms[i]) : i \in DOMAIN o.ms } \cup UNION { nxt(i) : i \in DOMAIN k.ins }

\* C16: a history of calls on a reader: [op |-> "n", r] or [op |-> "s", w].
\* the history of a source that holds `total` words; cut: not read to the end
RECURSIVE HistBad(_, _, _, _)
HistBad(h, i, taken, total) ==
  IF i > Len(h) THEN {}
  ELSE LET x == h[i] IN
       IF x.op = "n"
       THEN (IF x.r # (taken < total) THEN {<<"next", i>>} ELSE HistBad(h, i + 1, taken, total))
       ELSE IF taken < total THEN HistBad(h, i + 1, taken + 1, total)
            ELSE (IF x.w # <<>> THEN {<<"a word after the end", i>>} ELSE HistBad(h, i + 1, taken, total))
Count(ws, w) == Cardinality({ i \in DOMAIN ws : ws[i] = w })
BadRd(k) ==
  LET o  == k.obs
      gx == o.gx
      names == TLCEval(ReachNames(k.g, {k.root}))
      der(w) == LET c == Ctx(k.g, w) IN c.n \in Reach(c, names)[0][k.root]
      ws == TLCEval(o.ws)
      tr == TLCEval(Trails(gx))
      total == IF ~tr.done THEN 100000 ELSE SumCount(gx, tr.ts, 0) + (IF HasEmpty(gx) THEN 1 ELSE 0)
      bad == { i \in DOMAIN ws : ~der(ws[i]) }
      trails ==
        IF total > k.par.limit
        THEN (IF ~o.cut THEN {<<"ends too early">>} ELSE {})
        ELSE LET TV == TLCEval(UNION { { <<t, v>> : v \in TrailWords(gx, t, 1) } : t \in tr.ts }
                               \cup (IF HasEmpty(gx) THEN {<<<<>>, <<>>>>} ELSE {}))
                 J  == TLCEval([x \in TV |-> Join(x[2])])
             IN  (IF o.cut THEN {<<"does not end">>} ELSE {})
                 \cup { <<"word missing or repeated", w>> :
                        w \in { y \in { J[x] : x \in TV } \cup RangeOf(ws) : Count(ws, y) # Cardinality({ x \in TV : J[x] = y }) } }
      live == TLCEval(Live(gx))
      cover ==
        LET cs == TLCEval([i \in DOMAIN ws |-> LET c == Ctx(k.g, ws[i]) IN Covered(c, [p \in 0..c.n |-> [nm \in {} |-> {}]], gx)])
            ces == UNION { cs[i].edges : i \in DOMAIN ws }
            cvs == UNION { { <<x[1], SubSeq(ws[i], x[2] + 1, x[3])>> : x \in cs[i].vars } : i \in DOMAIN ws }
            es == { e \in Edges(gx) : e[1] \in live /\ e[2] \in live }
            vs == UNION { { <<n, v>> : v \in Vars(gx.e[n]) } : n \in live }
        IN  (IF es \subseteq ces THEN {} ELSE {<<"edges not covered", es \ ces>>})
            \cup (IF vs \subseteq cvs THEN {} ELSE {<<"values not covered", vs \ cvs>>})
            \cup (IF HasEmpty(gx) /\ Count(ws, <<>>) = 0 THEN {<<"empty word not covered">>} ELSE {})
  IN  IF o.x # "" THEN {<<o.x>>}
      ELSE IF o.k # "ok" THEN {<<"refused", o.k>>}
      ELSE { <<"not a word", ws[i]>> : i \in bad }
           \cup (IF k.par.compact THEN (IF o.cut THEN {} ELSE cover) ELSE trails)
           \cup (IF ~o.same THEN {<<"another reader, another outcome">>} ELSE {})
           \cup (IF o.cut THEN {} ELSE HistBad(o.h, 1, 0, Len(ws)))
=============================================================================
