------------------------------- MODULE Config -------------------------------
(* One verifier and its settings.  Setters change settings one at a time; what is derived from settings
   (the collapsed ensemble, results saved in scratch mode) has to follow.  Every metric is abstracted to
   the settings its answer depends on. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Classes, Ops, Recollapse, ScratchWipes, Hist

Base == {"ax", "boot", "save"}
SettingsOf(c) == CASE c = "determ" -> Base
                   [] c = "ens" -> Base \cup {"eax", "col"}
                   [] c \in {"gauss", "gamma"} -> Base \cup {"trunc", "mem", "clip", "sax"}
                   [] c = "hurdle" -> Base \cup {"ib", "ir"}
AllSettings == UNION {SettingsOf(c) : c \in {"determ", "ens", "gauss", "gamma", "hurdle"}}
Values(k) == IF k \in {"save", "ax"} THEN 1..3 ELSE 1..2        \* save: 1 off, 2 from scratch, 3 reusing
Metrics(c) ==
  CASE c = "determ" -> {"error", "f_determ", "corr", "iou_determ"}
    [] c = "ens" -> {"error", "f_determ", "corr", "iou_determ", "crps", "brier", "reliability", "brier_decomp", "variance", "ss", "spread", "rank_hist"}
    [] c \in {"gauss", "gamma"} -> {"error", "f_determ", "corr", "cdf", "brier", "reliability", "prob_to_ens", "spread", "rank_hist", "crps"}
    [] c = "hurdle" -> {"error", "f_determ", "cdf", "brier", "crps", "variance", "ss"}
Agg(m) == IF m \in {"error", "crps", "brier", "reliability", "ss", "spread", "corr", "brier_decomp"} THEN {"ax", "boot"}
          ELSE IF m = "iou_determ" THEN {"ax"} ELSE {}
Own(c, m) ==
  CASE c = "determ" -> {}
    [] c = "ens" -> IF m \in {"error", "f_determ", "corr", "iou_determ"} THEN {"eax", "col"}
                    ELSE IF m = "ss" THEN {"eax", "col"} ELSE {"eax"}
    [] c \in {"gauss", "gamma"} -> IF m \in {"cdf", "brier", "reliability", "crps"} THEN {"trunc"}
                                   ELSE IF m \in {"prob_to_ens", "spread"} THEN {"trunc", "mem", "clip", "sax"}
                                   ELSE IF m = "rank_hist" THEN {"trunc", "mem", "clip"} ELSE {}
    [] c = "hurdle" -> IF m \in {"error", "f_determ", "crps", "variance", "ss"} THEN {"ib", "ir"} ELSE {}
Deps(c, m) == Agg(m) \cup Own(c, m)

VARIABLES cls, set, collapsed, disk, answer, nops, hist
vars == <<cls, set, collapsed, disk, answer, nops, hist>>
Log(x) == hist' = IF Hist THEN Append(hist, x) ELSE hist
Init == /\ cls \in Classes
        /\ set = [k \in SettingsOf(cls) |-> 1] /\ collapsed = [eax |-> 1, col |-> 1]
        /\ disk = <<>> /\ answer = <<>> /\ nops = 0 /\ hist = <<[op |-> "new", cls |-> cls]>>
Set(k) ==
  \E v \in Values(k) \ {set[k]} :
    /\ set' = [set EXCEPT ![k] = v]
    /\ collapsed' = IF k \in {"eax", "col"} /\ Recollapse THEN [collapsed EXCEPT ![k] = v] ELSE collapsed
    /\ disk' = IF set'.save = 2 /\ ScratchWipes THEN <<>> ELSE IF k = "save" /\ v = 2 THEN <<>> ELSE disk
    /\ Log([op |-> "set", k |-> k, v |-> v]) /\ answer' = <<>>
Ask(m) ==
  LET now == [k \in Own(cls, m) |-> IF m \in {"error", "f_determ", "corr", "iou_determ", "ss"} /\ k \in {"eax", "col"} THEN collapsed[k] ELSE set[k]]
      got == IF set.save # 1 /\ m \in DOMAIN disk THEN disk[m] ELSE now
  IN /\ answer' = [m |-> m, used |-> got]
     /\ disk' = IF set.save # 1 THEN (m :> got) @@ disk ELSE disk
     /\ Log([op |-> "call", m |-> m]) /\ UNCHANGED <<set, collapsed>>
Next == /\ nops < Ops /\ nops' = nops + 1 /\ UNCHANGED cls
        /\ (\E k \in SettingsOf(cls) : Set(k)) \/ (\E m \in Metrics(cls) : Ask(m))
Spec == Init /\ [][Next]_vars

(* C20: unless results saved earlier are meant to be reused, an answer is that of the present settings *)
AsBuiltAnew == answer = <<>> \/ set.save = 3 \/ \A k \in DOMAIN answer.used : answer.used[k] = set[k]
(* what is derived follows the settings *)
Coherent == cls # "ens" \/ \A k \in {"eax", "col"} : collapsed[k] = set[k]
Shown == (nops = Ops /\ answer # <<>>) => PrintT("BEH " \o ToJson(hist))
=============================================================================
