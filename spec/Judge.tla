-------------------------------- MODULE Judge -------------------------------
(* Total verdicts on the result of a metric call: the set of names of the clauses it violates.
   D dataset, ob verifier settings, e recorded call (arguments and result), st option settings. *)
EXTENDS Boot

Same(r, x) == IF r.s # x.s \/ Len(r.v) # Len(x.v) THEN {"shape"} ELSE IF r.v # x.v THEN {"value"} ELSE {}
SameAll(rs, xs) == IF Len(rs) # Len(xs) THEN {"arity"} ELSE UNION {Same(rs[i], xs[i]) : i \in 1..Len(xs)}
ShapeIs(r, s) == IF r.s # s \/ Len(r.v) # Size(s) THEN {"shape"} ELSE {}
When(c, name) == IF c THEN {} ELSE {name}

AxOf(D, ob) == AxSet(ob.axn, ob.ax, Len(D.o.s))
KeptOf(D, ob) == KeptShape(D.o.s, AxOf(D, ob))
GroupsIn(D, ob) == TLCEval(Groups(D.o.s, AxOf(D, ob)))

(* first-axis triples *)
TripleAt(r, K, k) == <<r.v[k], r.v[K + k], r.v[2 * K + k]>>
(* last-axis triples *)
TripleLast(r, i) == <<r.v[3 * i - 2], r.v[3 * i - 1], r.v[3 * i]>>

(* bootstrapped means of the values v of shape s over axes A *)
JBoot(v, s, A, boot, r, st) ==
  LET g == TLCEval(Groups(s, A))
      K == Len(g)
  IN IF Len(r.r) # 1 THEN {"arity"}
     ELSE LET x == r.r[1] sh == ShapeIs(x, <<3>> \o KeptShape(s, A))
          IN IF sh # {} THEN sh
             ELSE UNION {When(TripleAt(x, K, k) \in BootTriples(Pick(v, g[k]), boot, st.reps, st.conf, st.skip),
                              "triple") : k \in 1..K}
JMean(D, ob, e, st) ==
  LET pw == CellScore(D, ob, e.m, e.over, e.t, st.skip)
  IN IF ob.boot = 0 THEN SameAll(e.r.r, <<MeanOver(Arr(D.o.s, pw), AxOf(D, ob), st.skip)>>)
     ELSE JBoot(pw, D.o.s, AxOf(D, ob), ob.boot, e.r, st)

JRank(D, ob, e, st) ==
  LET M == MembersOf(D.f, ob.eax, D.u)
      o == ObsOf(D)
      miss(k) == AnyNaN(M[k]) \/ ~IsNum(o[k])
      r == e.r.r[1]
  IN IF ShapeIs(r, D.o.s) # {} THEN {"shape"}
     ELSE UNION {IF miss(k) THEN When(r.v[k] = NaN, "missing rank")
                 ELSE LET lo == RankLo(M[k], o[k])
                      IN When(\E x \in 0..Ties(M[k], o[k]) : r.v[k] = <<lo + x, 1>>,
                              IF Ties(M[k], o[k]) = 0 THEN "rank" ELSE "tied rank") : k \in 1..Len(M)}
RankRefused(D, ob, st) ==
  ~st.skip /\ (AnyNaN(ObsOf(D)) \/ \E k \in 1..Len(D.f.v) : D.f.v[k] = Miss)

(* reliability diagram on probabilities p and events ev of shape s, axes A *)
JRel(p, ev, s, A, nb, boot, r, st) ==
  LET g == TLCEval(Groups(s, A))
      K == Len(g)
      sl == TLCEval([k \in 1..K |-> RelSlice(Pick(p, g[k]), Pick(ev, g[k]), nb)])
      nbin(k) == Len(sl[k].cnt)
      ragged == \E k \in 1..K : nbin(k) # nbin(1) \/ Len(sl[k].out) # Len(sl[1].out)
      ks == KeptShape(s, A)
      sh(x) == ks \o <<x>>
      Flat(F(_)) == FoldLeft(LAMBDA acc, k : acc \o F(k), <<>>, [k \in 1..K |-> k])
      ints(q) == [i \in 1..Len(q) |-> <<q[i], 1>>]
  IN IF r.t # "ok" THEN When(ragged, "refused")
     ELSE IF ragged THEN {}                       \* not comparable as one array: unconstrained
     ELSE IF Len(r.r) # 4 THEN {"arity"}
     ELSE Same(r.r[3], Arr(sh(nbin(1)), Flat(LAMBDA k : ints(sl[k].cnt))))
          \cup Same(r.r[4], Arr(sh(Len(sl[1].out)), Flat(LAMBDA k : ints(sl[k].out))))
          \cup IF boot = 0
               THEN Same(r.r[1], Arr(sh(nbin(1)), Flat(LAMBDA k : sl[k].pred)))
                    \cup Same(r.r[2], Arr(sh(nbin(1)), Flat(LAMBDA k : sl[k].obs)))
               ELSE LET bs == ks \o <<nbin(1), 3>>
                        bad == ShapeIs(r.r[1], bs) \cup ShapeIs(r.r[2], bs)
                        occ(k) == LET F == Pick(p, g[k])
                                  IN TLCEval(SelectSeq([b \in 1..nb |-> b - 1],
                                       LAMBDA b : \E i \in 1..Len(F) : RelBin(F[i], nb) = b))
                        ids(k, j) == LET b == occ(k)[j]
                                     IN SelectSeq(g[k], LAMBDA i : RelBin(p[i], nb) = b)
                    IN IF bad # {} THEN bad
                       ELSE UNION {UNION {
                          LET z == TLCEval(ids(k, j))
                              i == (k - 1) * nbin(1) + j
                              evs == [x \in 1..Len(z) |-> B2R(ev[z[x]])]
                          IN When(TripleLast(r.r[1], i) \in BootTriples(Pick(p, z), boot, st.reps, st.conf, FALSE), "triple forecast")
                             \cup When(TripleLast(r.r[2], i) \in BootTriples(evs, boot, st.reps, st.conf, FALSE), "triple observed")
                          : j \in 1..nbin(1)} : k \in 1..K}

(* Probabilities next to a bin edge: k[i] / nb moved by a tiny amount in the direction d[i].  Which bin
   they fall into, hence how many there are and what was observed, is decided by the direction. *)
JRelEdge(k, d, nb, ev, s, A, r) ==
  LET p == [i \in 1..Len(k) |-> R(4 * k[i] + d[i], 4 * nb)]
      g == TLCEval(Groups(s, A))
      K == Len(g)
      sl == TLCEval([j \in 1..K |-> RelSlice(Pick(p, g[j]), Pick(ev, g[j]), nb)])
      nbin(j) == Len(sl[j].cnt)
      ragged == \E j \in 1..K : nbin(j) # nbin(1) \/ Len(sl[j].out) # Len(sl[1].out)
      sh(x) == KeptShape(s, A) \o <<x>>
      Flat(F(_)) == FoldLeft(LAMBDA acc, j : acc \o F(j), <<>>, [j \in 1..K |-> j])
      ints(q) == [i \in 1..Len(q) |-> <<q[i], 1>>]
  IN IF r.t # "ok" THEN When(ragged, "refused")
     ELSE IF ragged THEN {}
     ELSE IF Len(r.r) # 4 THEN {"arity"}
     ELSE Same(r.r[3], Arr(sh(nbin(1)), Flat(LAMBDA j : ints(sl[j].cnt))))
          \cup Same(r.r[4], Arr(sh(Len(sl[1].out)), Flat(LAMBDA j : ints(sl[j].out))))
          \cup Same(r.r[2], Arr(sh(nbin(1)), Flat(LAMBDA j : sl[j].obs)))
JDecompEdge(k, d, ev, s, A, r) ==
  LET g == TLCEval(Groups(s, A))
      K == Len(g)
      ks == KeptShape(s, A)
      p == [i \in 1..Len(k) |-> R(k[i], 20)]
      b == [i \in 1..Len(k) |-> BDBin(R(4 * k[i] + d[i], 80))]
      dc == TLCEval([j \in 1..K |-> DecompIn(Pick(p, g[j]), Pick(ev, g[j]), Pick(b, g[j]))])
  IN IF r.t # "ok" THEN {"refused"}
     ELSE IF Len(r.r) # 3 THEN {"arity"}
     ELSE Same(r.r[1], Arr(ks, [j \in 1..K |-> dc[j].rel])) \cup Same(r.r[2], Arr(ks, [j \in 1..K |-> dc[j].res]))
          \cup Same(r.r[3], Arr(ks, [j \in 1..K |-> dc[j].unc]))

JDecomp(p, ev, s, A, boot, r, st) ==
  LET g == TLCEval(Groups(s, A))
      K == Len(g)
      ks == KeptShape(s, A)
      dc == TLCEval([k \in 1..K |-> Decomp(Pick(p, g[k]), Pick(ev, g[k]))])
  IN IF Len(r.r) # 3 THEN {"arity"}
     ELSE IF boot = 0
     THEN Same(r.r[1], Arr(ks, [k \in 1..K |-> dc[k].rel])) \cup Same(r.r[2], Arr(ks, [k \in 1..K |-> dc[k].res]))
          \cup Same(r.r[3], Arr(ks, [k \in 1..K |-> dc[k].unc]))
     ELSE LET bs == <<3>> \o ks
              bad == UNION {ShapeIs(r.r[i], bs) : i \in 1..3}
          IN IF bad # {} THEN bad
             ELSE UNION {
               LET reach == TLCEval({LET pos == Pick(g[k], m) dd == Decomp(Pick(p, pos), Pick(ev, pos))
                                     IN <<dd.rel, dd.res, dd.unc>> : m \in Multi(1, Len(g[k]), boot)})
                   tr(i) == TripleAt(r.r[i], K, k)
               IN IF st.reps = 1
                  THEN When(\E x \in reach : \A i \in 1..3 : tr(i) = <<x[i], x[i], x[i]>>, "triple")
                  ELSE UNION {When(tr(i) \in Triples({x[i] : x \in reach}, st.reps, st.conf, FALSE), "triple") : i \in 1..3}
               : k \in 1..K}

(* <<sign, square>> of two numbers in order *)
SignedLe(a, b) == IF a[1] # b[1] THEN a[1] < b[1] ELSE IF a[1] >= 0 THEN RLe(a[2], b[2]) ELSE RLe(b[2], a[2])
IsJunk(v) == v = <<7, 0>>           \* recorded for values that are not small rationals
(* the quantiles are replicate values, not interpolated *)
ExactQuantile(st) == ~st.skip /\ RMul(R(st.reps - 1, 1), RMul(RSub(One, st.conf), <<1, 2>>))[2] = 1
(* correlation; x, y integer sequences of the whole array, Miss where missing.  Result: r^2 and sign *)
JCorr(x, y, s, A, boot, r, st) ==
  LET g == TLCEval(Groups(s, A))
      K == Len(g)
      ks == KeptShape(s, A)
      use(k) == IF st.skip THEN SelectSeq(g[k], LAMBDA i : x[i] # Miss /\ y[i] # Miss) ELSE g[k]
      dirty(k) == \E i \in 1..Len(use(k)) : x[use(k)[i]] = Miss \/ y[use(k)[i]] = Miss
      at(i) == <<r.r[2].v[i], r.r[1].v[i]>>                \* <<sign, square>>
      okc(pos, got) == LET a == Pick(x, pos) b == Pick(y, pos)
                       IN ~CorrDefined(a, b) \/ got = CorrOf(a, b)
      val(pos) == LET a == Pick(x, pos) b == Pick(y, pos)
                  IN IF CorrDefined(a, b) THEN CorrOf(a, b) ELSE <<0, NaN>>
  IN IF Len(r.r) # 2 THEN {"arity"}
     ELSE IF boot = 0
     THEN LET bad == ShapeIs(r.r[1], ks)
          IN IF bad # {} THEN bad
             ELSE UNION {IF dirty(k) THEN When(r.r[1].v[k] = NaN, "missing") ELSE When(okc(use(k), at(k)), "value") : k \in 1..K}
     ELSE LET bad == ShapeIs(r.r[1], <<3>> \o ks)
          IN IF bad # {} THEN bad
             ELSE IF st.reps # 1 THEN UNION {
                LET u == TLCEval(use(k))
                    reach == TLCEval({val(Pick(u, m)) : m \in Multi(1, Len(u), boot)})
                    num == {z \in reach : z[2] # NaN}
                    tr == <<at(k), at(K + k), at(2 * K + k)>>
                    some == \E i \in 1..3 : tr[i][2] = NaN
                IN IF dirty(k) \/ u = <<>> THEN {}
                   ELSE IF some THEN When(<<0, NaN>> \in reach, "triple")
                   ELSE When(\A i \in 1..3 : IsJunk(tr[i][2]) \/ ((\E z \in num : SignedLe(z, tr[i])) /\ (\E z \in num : SignedLe(tr[i], z))), "triple range")
                        \cup When(IsJunk(tr[1][2]) \/ IsJunk(tr[3][2]) \/ SignedLe(tr[1], tr[3]), "triple order")
                        \cup When(~ExactQuantile(st) \/ (tr[1] \in reach /\ tr[3] \in reach), "triple")
                : k \in 1..K}
             ELSE UNION {IF dirty(k) THEN {}
                         ELSE LET u == TLCEval(use(k))
                                  reach == TLCEval({val(Pick(u, m)) : m \in Multi(1, Len(u), boot)})
                                  degen == <<0, NaN>> \in reach
                                  tr == <<at(k), at(K + k), at(2 * K + k)>>
                              IN IF u = <<>> THEN When(tr[1][2] = NaN, "triple") ELSE When(tr[1] = tr[2] /\ tr[2] = tr[3] /\ (tr[1] \in reach \/ (degen /\ tr[1][2] = NaN)), "triple")
                         : k \in 1..K}

JRoc(p, ev, r) ==
  LET fp == r.r[1].v tp == r.r[2].v n == Len(fp)
      pts == RocPoints(p, ev)
      P == {<<fp[i], tp[i]>> : i \in 1..n}
  IN IF Len(r.r) # 3 \/ Len(tp) # n \/ n < 2 THEN {"shape"}
     ELSE When(fp[1] = Zero /\ tp[1] = Zero, "start")
          \cup When(fp[n] = One /\ tp[n] = One, "end")
          \cup When(\A i \in 1..(n - 1) : RLe(fp[i], fp[i + 1]) /\ RLe(tp[i], tp[i + 1]), "monotone")
          \cup When(P \subseteq pts, "point of no threshold")
          \cup When(RocCorners(pts) \subseteq P, "corner missing")
          \cup When(Len(r.r[3].v) = 1 /\ r.r[3].v[1] = Auc(p, ev), "area")

JIou(fb, ob, s, A, r) ==
  LET g == TLCEval(Groups(s, A))
  IN SameAll(r.r, <<Arr(KeptShape(s, A), [k \in 1..Len(g) |-> Iou(Pick(fb, g[k]), Pick(ob, g[k]))])>>)

(* spread-skill; result squared *)
JSS(var, sq, s, A, nb, boot, r, st) ==
  LET g == TLCEval(Groups(s, A))
      K == Len(g)
      n == Len(g[1])
      ks == KeptShape(s, A)
      sh == ks \o <<nb>> \o (IF boot = 0 THEN <<>> ELSE <<3>>)
      c == TLCEval([k \in 1..K |-> SSCell(Pick(var, g[k]), Pick(sq, g[k]), nb, st.skip)])
      i(k, b) == (k - 1) * nb + b
      bad == ShapeIs(r.r[1], sh) \cup ShapeIs(r.r[2], sh)
  IN IF nb > n THEN When(r.t # "ok", "too many bins accepted")
     ELSE IF r.t # "ok" THEN {"refused"}
     ELSE IF Len(r.r) # 2 THEN {"arity"} ELSE IF bad # {} THEN bad
     ELSE IF boot = 0
     THEN UNION {
        When(\A b \in 1..nb : r.r[1].v[i(k, b)] = c[k].sp[b], "spread")
        \cup (IF c[k].det THEN When(\A b \in 1..nb : r.r[2].v[i(k, b)] = c[k].sk[b], "skill")
              ELSE IF AnyNaN(Pick(sq, g[k])) THEN {}
              ELSE When(RSum([b \in 1..nb |-> RMul(R(c[k].size[b], n), r.r[2].v[i(k, b)])]) = c[k].mse, "skill total"))
        : k \in 1..K}
     ELSE UNION {
        LET ord == TLCEval(SortSeq([j \in 1..n |-> j], LAMBDA a, b2 : RLt(Pick(var, g[k])[a], Pick(var, g[k])[b2])))
            from == TLCEval(SplitFrom(n, nb))
            pos(b) == [j \in 1..c[k].size[b] |-> g[k][ord[from[b] + j - 1]]]
        IN UNION {
             When(TripleLast(r.r[1], i(k, b)) \in BootTriples(Pick(var, pos(b)), boot, st.reps, st.conf, st.skip), "triple spread")
             \cup When(~c[k].det \/ TripleLast(r.r[2], i(k, b)) \in BootTriples(Pick(sq, pos(b)), boot, st.reps, st.conf, st.skip), "triple skill")
             : b \in 1..nb}
        : k \in 1..K}

ScaledInt(u, q, m) ==       \* rationals with denominators dividing m -> integers
  [k \in 1..Len(q) |-> IF IsNum(q[k]) THEN q[k][1] * (m \div q[k][2]) ELSE Miss]

MeanScores == {"error", "ab_error", "sq_error", "rmse", "spread", "crps", "brier"}
ThrMetrics == {"brier", "cdf", "sharpness", "reliability", "brier_decomp", "roc", "iou_determ", "iou_prob"}

(* metrics a class defines *)
Defined(cls) ==
  LET base == {"error", "ab_error", "sq_error", "rmse", "f_determ", "corr", "iou_determ"}
      more == base \cup {"spread", "crps", "brier", "rank_hist", "cdf", "sharpness", "reliability", "brier_decomp",
                         "roc", "iou_prob", "variance", "binned_spread_skill"}
  IN IF cls = "determ" THEN base ELSE more

JudgeValue(D, ob0, e, st) ==
  LET ob == IF ob0.cls = "hurdle" /\ ob0.ir = <<>> THEN [ob0 EXCEPT !.ir = DefaultRange(ObsOf(D), st.mult)] ELSE ob0
      A == AxOf(D, ob)
      s == D.o.s
      p == EventProb(D, ob, e.over, e.t)
      ev == Events(D, e.over, e.t)
      m == e.m
      miss == \E k \in 1..Len(p) : ~IsNum(p[k])
  IN CASE m = "binned_spread_skill" ->
            JSS(VarianceOf(D, ob), CellScore(D, ob, "sq_error", FALSE, e.t, FALSE), s, A, e.nb, ob.boot, e.r, st)
       [] m = "reliability" -> JRel(p, ev, s, A, e.nb, ob.boot, e.r, st)
       [] m = "rank_hist" /\ RankRefused(D, ob, st) -> When(e.r.t = "exc", "missing values accepted")
       [] m = "roc" /\ miss /\ ~st.skip -> {}
       [] m = "roc" /\ (\A k, l \in {z \in 1..Len(p) : IsNum(p[z])} : ev[k] = ev[l]) -> {}    \* needs events and non-events
       [] OTHER ->
          IF e.r.t # "ok" THEN {"refused"}
          ELSE CASE m \in MeanScores -> JMean(D, ob, e, st)
                 [] m \in {"cdf", "sharpness"} -> SameAll(e.r.r, <<Arr(s, p)>>)
                 [] m = "f_determ" -> SameAll(e.r.r, <<Arr(s, PointOf(D, ob))>>)
                 [] m = "variance" -> SameAll(e.r.r, <<Arr(s, VarianceOf(D, ob))>>)
                 [] m = "rank_hist" -> JRank(D, ob, e, st)
                 [] m = "brier_decomp" -> JDecomp(p, ev, s, A, ob.boot, e.r, st)
                 [] m = "corr" -> JCorr(ScaledInt(D.u, PointOf(D, ob), e.scale), ScaledInt(D.u, ObsOf(D), e.scale), s, A, ob.boot, e.r, st)
                 [] m = "roc" ->
                      LET z == SelectSeq([k \in 1..Len(p) |-> k], LAMBDA k : IsNum(p[k]))
                      IN IF \A k \in 1..Len(z) : ev[z[k]] = ev[z[1]] THEN {} ELSE JRoc(Pick(p, z), Pick(ev, z), e.r)
                 [] m = "iou_determ" ->
                      LET f == PointOf(D, ob)
                      IN JIou([k \in 1..Len(f) |-> EventOf(f[k], Thr(D, e.t, k), e.over)], ev, s, A, e.r)
                 [] m = "iou_prob" ->
                      JIou([k \in 1..Len(p) |-> IF e.pover THEN RLt(R(e.pt, 32), p[k]) ELSE RLt(p[k], R(e.pt, 32))], ev, s, A, e.r)

(* a call as such: one of over/below, a metric the class has *)
JudgeCall(D, ob, e, st) ==
  IF e.m \notin Defined(ob.cls) THEN When(e.r.t = "exc" /\ e.r.e = "notimpl", "undefined metric answered")
  ELSE IF e.m \in ThrMetrics /\ e.nthr # 1 THEN When(e.r.t = "exc", "both or neither threshold accepted")
  ELSE JudgeValue(D, ob, e, st)
=============================================================================
