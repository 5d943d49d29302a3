------------------------------ MODULE Requests ------------------------------
(* Which requests are well posed: construction, reconfiguration and metric calls.  Shapes are sequences of
   lengths; axes are counted from 0, or from the end when negative; NoAxis means that none was given. *)
EXTENDS Integers, Sequences, FiniteSets
NoAxis == 99
Without(s, k) == [i \in 1..(Len(s) - 1) |-> IF i <= k THEN s[i] ELSE s[i + 1]]        \* axis k from 0
InRange(n, a) == -n <= a /\ a < n
Norm(n, a) == IF a < 0 THEN n + a ELSE a
(* the member axis: the last one if that leaves the shape of the observations, else the first one *)
Infer(fs, os) == IF Len(fs) = 0 THEN NoAxis
                 ELSE IF Without(fs, Len(fs) - 1) = os THEN Len(fs) - 1
                 ELSE IF Without(fs, 0) = os THEN 0 ELSE NoAxis
MemberAxis(fs, os, a) ==
  IF a = NoAxis THEN Infer(fs, os)
  ELSE IF InRange(Len(fs), a) /\ Norm(Len(fs), a) \in {0, Len(fs) - 1} /\ Without(fs, Norm(Len(fs), a)) = os THEN Norm(Len(fs), a) ELSE NoAxis
EnsOk(fs, os, a) == MemberAxis(fs, os, a) # NoAxis
AxesOk(axs, n) == /\ \A i \in 1..Len(axs) : InRange(n, axs[i])
                  /\ \A i, j \in 1..Len(axs) : i # j => Norm(n, axs[i]) # Norm(n, axs[j])
Params(c) == CASE c = "gauss" -> {"mu", "sigma"} [] c = "gamma" -> {"mu", "sigma", "shift", "unshifted_mu"} [] c = "hurdle" -> {"pop", "mu", "sigma"}
(* sh: parameter name -> shape of what was given under it *)
ProbOk(c, sh, os) == \A p \in Params(c) : p \in DOMAIN sh /\ sh[p] = os

Classes == {"verify", "prob", "determ", "ens", "gauss", "gamma", "hurdle"}
Thresholded == {"cdf", "brier", "brier_decomp", "reliability", "roc", "sharpness", "iou_determ", "iou_prob"}
Plain == {"corr", "rank_hist", "variance", "f_determ", "crps", "error", "spread", "sq_error", "ab_error", "rmse", "binned_spread_skill", "prob_to_ens", "pit"}
Metrics == Thresholded \cup Plain
Has(c, m) == m \in {"prob_to_ens", "pit"} => c \in {"prob", "gauss", "gamma", "hurdle"}
Point == {"error", "sq_error", "ab_error", "rmse", "f_determ", "corr", "iou_determ"}
(* metrics that need the concept of members or of a distribution are not defined without one *)
Defined(c, m, trunc, sampled) ==
  CASE c \in {"verify", "prob"} -> FALSE
    [] c = "determ" -> m \in Point
    [] c = "hurdle" -> m \notin {"spread", "prob_to_ens"} /\ ~(m = "rank_hist" /\ sampled)
    [] c = "gamma" -> ~(m = "crps" /\ trunc)
    [] OTHER -> TRUE
(* th: for each of over and below, which numbers were given; iou_prob takes a threshold and a probability *)
One(x, y) == x # y
WellPosed(m, th) ==
  IF m = "iou_prob" THEN One(th.o1, th.b1) /\ One(th.o2, th.b2)
  ELSE m \in Thresholded => One(th.o1, th.b1)
Verdict(c, m, trunc, sampled, th) ==
  IF ~Defined(c, m, trunc, sampled) THEN "notimpl"
  ELSE IF ~WellPosed(m, th) THEN "refused"
  ELSE IF m \in {"spread", "prob_to_ens"} /\ c \in {"gauss", "gamma"} /\ ~sampled THEN "refused"
  ELSE "answer"

(* settings of a class and the kinds of values that they take *)
Base == {"ax", "boot", "scratch", "dir"}
ProbBase == Base \cup {"sax", "trunc", "pit", "mem", "clip"}
SettingsOf(c) == CASE c = "determ" -> Base
                   [] c = "ens" -> Base \cup {"eax", "col"}
                   [] c \in {"gauss", "gamma"} -> ProbBase
                   [] c = "hurdle" -> ProbBase \cup {"ib", "ir"}
                   [] OTHER -> {}
Kinds == {"int", "float", "str", "bool", "none", "tuple", "function"}
KindsOf(k) == CASE k = "ax" -> {"int", "tuple", "none"}
                [] k \in {"boot", "mem"} -> {"int", "none"}
                [] k = "scratch" -> {"bool"}
                [] k = "dir" -> {"str", "none"}
                [] k = "eax" -> {"int", "none"}
                [] k = "col" -> {"function"}
                [] k \in {"sax", "ib"} -> {"int"}
                [] k \in {"trunc", "pit"} -> {"bool"}
                [] k = "clip" -> {"float", "none"}
                [] k = "ir" -> {"tuple", "none"}
(* kinds between which the language itself draws no line *)
Near(k) == CASE k \in {"ax", "boot", "mem", "eax", "sax", "ib"} -> {"bool"} [] k = "clip" -> {"int", "bool"} [] k = "dir" -> {"bool", "int"} [] OTHER -> {}
KindVerdict(k, kind) == IF kind \in KindsOf(k) THEN "ok" ELSE IF kind \in Near(k) THEN "either" ELSE "refused"
=============================================================================
