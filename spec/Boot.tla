-------------------------------- MODULE Boot --------------------------------
(* Bootstrap: which lower/mean/upper triples can resampling of one cell produce. *)
EXTENDS Scores

(* all multisets of size k over the sequence q, as sequences of positions (non-decreasing) *)
RECURSIVE Multi(_, _, _)
Multi(lo, n, k) == IF k = 0 THEN {<<>>}
                   ELSE UNION {{<<i>> \o m : m \in Multi(i, n, k - 1)} : i \in lo..n}
Distinct(q) == SetToSeq({q[i] : i \in 1..Len(q)})

(* means of the samples of size ns drawn with replacement *)
SampleMeans(q, ns, skip) ==
  LET d == TLCEval(Distinct(q))
  IN TLCEval({RMean(Pick(d, m), skip) : m \in Multi(1, Len(d), ns)})

(* linear-interpolation quantile of a sorted sequence z at p *)
Quant(z, p) ==
  LET n == Len(z)
      pos == RMul(R(n - 1, 1), p)
      i == pos[1] \div pos[2]
      fr == RSub(pos, R(i, 1))
  IN IF i + 2 > n THEN z[n] ELSE RAdd(z[i + 1], RMul(fr, RSub(z[i + 2], z[i + 1])))
TripleOf(w, conf, skip) ==       \* w: replicate values
  LET x == IF skip THEN SelectSeq(w, IsNum) ELSE w
      z == TLCEval(SortR(x))
      dl == RMul(RSub(One, conf), <<1, 2>>)
  IN IF x = <<>> \/ AnyNaN(x) THEN <<NaN, NaN, NaN>>
     ELSE <<Quant(z, dl), RMean(x, FALSE), Quant(z, RSub(One, dl))>>
(* the triples reachable when replicate values come from the set S.  skipReps: replicates that are NaN
   are left out (correlation and decomposition with NaN skipping) *)
Triples(S, reps, conf, skipReps) ==
  LET d == TLCEval(SetToSeq(S))
  IN TLCEval({TripleOf(Pick(d, m), conf, skipReps) : m \in Multi(1, Len(d), reps)})
BootTriples(q, ns, reps, conf, skip) == Triples(SampleMeans(q, ns, skip), reps, conf, FALSE)
=============================================================================
