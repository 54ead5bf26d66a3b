------------------------------- MODULE Octets --------------------------------
(***************************************************************************)
(* Which octets can follow a byte string towards some word of a rule.      *)
(***************************************************************************)
EXTENDS Rules

\* Only what can be completed: alternatives and repetitions that derive some
\* string.
RECURSIVE PruneAlt(_, _)
PruneElem(P, el) == IF el.t \in {"grp", "opt"} THEN [el EXCEPT !.a = PruneAlt(P, el.a)] ELSE el
PruneRep(P, rp) == IF ElemProd(P, rp.e) THEN [rp EXCEPT !.e = PruneElem(P, rp.e)]
                   ELSE [rp EXCEPT !.mx = 0]
PruneAlt(P, alt) ==
  LET keep == SelectSeq(alt, LAMBDA ct : \A j \in DOMAIN ct : RepProd(P, ct[j]))
  IN  [i \in DOMAIN keep |-> [j \in DOMAIN keep[i] |-> PruneRep(P, keep[i][j])]]
Pruned(gr, root) ==
  LET names == ReachNames(gr, {root})
      P == TLCEval(ProductiveNames(gr, names))
  IN  [nm \in names |-> PruneAlt(P, RuleAlt(gr, nm))]

\* The scalars whose encoding starts with bs (1 to 4 octets) are an interval.
Interval(bs) ==
  LET k == Len(bs)
      b1 == bs[1]
      rest(i) == IF i <= k THEN bs[i] - 128 ELSE 0
      span(n) == IF k >= n THEN 1 ELSE 64 ^ (n - k)
      low(n, lead) == CASE n = 2 -> lead * 64 + rest(2)
                        [] n = 3 -> lead * 4096 + rest(2) * 64 + rest(3)
                        [] n = 4 -> lead * 262144 + rest(2) * 4096 + rest(3) * 64 + rest(4)
      iv(n, lead, min) == IF k > n THEN <<1, 0>> ELSE <<MaxI(low(n, lead), min), low(n, lead) + span(n) - 1>>
  IN  IF \E i \in 2..k : ~IsCont(bs[i]) THEN <<1, 0>>
      ELSE IF b1 < 128 THEN IF k = 1 THEN <<b1, b1>> ELSE <<1, 0>>
      ELSE IF b1 >= 194 /\ b1 <= 223 THEN iv(2, b1 - 192, 128)
      ELSE IF b1 >= 224 /\ b1 <= 239 THEN iv(3, b1 - 224, 2048)
      ELSE IF b1 >= 240 /\ b1 <= 244 THEN iv(4, b1 - 240, 65536)
      ELSE <<1, 0>>

MinO(a, b) == IF a <= b THEN a ELSE b
Meets(iv, lo, hi) == LET l == MaxI(iv[1], lo) h == MinO(MinO(iv[2], hi), MaxRune) IN l <= h /\ HasScalar(l, h)

\* next octets of the characters lo..hi, after the octets bs of one
CharNext(bs, lo, hi) ==
  IF bs = <<>>
  THEN (lo..MinO(hi, 127)) \cup (IF hi < 128 THEN {} ELSE { b \in 194..244 : Meets(Interval(<<b>>), lo, hi) })
  ELSE IF Len(bs) > 3 THEN {}
  ELSE { b \in 128..191 : Meets(Interval(Append(bs, b)), lo, hi) }

Tail0(w, p) == SubSeq(w, p + 1, Len(w))

\* next octets of a terminal tried at p, when what follows p in w is a proper
\* prefix of one of its strings
RECURSIVE CodesNext(_, _, _, _, _, _)
CodesNext(c, w, v, sensitive, k, p) ==
  IF k > Len(v) THEN {}
  ELSE LET d == IF p < c.n THEN c.dec[p] ELSE NoRune
           both == IF sensitive THEN {v[k]} ELSE { x \in {v[k], v[k] + 32, v[k] - 32} : SameChar(v[k], x, FALSE) }
       IN  IF d.n > 0 THEN (IF SameChar(v[k], d.r, sensitive) THEN CodesNext(c, w, v, sensitive, k + 1, p + d.n) ELSE {})
           ELSE UNION { IF IsScalar(x) THEN CharNext(Tail0(w, p), x, x) ELSE {} : x \in both }
TermNext(c, w, el, p) ==
  CASE el.t = "chr" -> CodesNext(c, w, el.v, el.s, 1, p)
    [] el.t = "ser" -> CodesNext(c, w, el.v, TRUE, 1, p)
    [] el.t = "rng" -> IF p < c.n /\ c.dec[p].n > 0 THEN {} ELSE CharNext(Tail0(w, p), el.lo, el.hi)
    [] OTHER        -> {}

\* the octets that can follow w towards a word of root
NextOctets(gr, root, w) ==
  LET pg == TLCEval(Pruned(gr, root))
      c  == Ctx(pg, w)
      T  == TLCEval(Reach(c, DOMAIN pg))
  IN  UNION { TermNext(c, w, x.e, x.p) : x \in Attempts(c, T, root) }
=============================================================================
