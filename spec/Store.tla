-------------------------------- MODULE Store --------------------------------
(* Saved results as a state machine: processes with settings ask questions, results are looked up by
   name, computed, written and renamed into place; processes may be killed between any two steps and
   start again on the same directory.
   Metrics are abstracted to what their saved form depends on (Bakes) and what its name shows (Keys). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Procs, Ops, Crashes,      \* processes, user operations, crashes per behaviour
          Groups,                   \* groups of metrics; a behaviour asks those of one group
          Reconf,                   \* reconfigurations in use: subset of {"ax", "boot", "save", "new"}
          AtomicSave, NamesShow, ScratchWipes, Hist,
          DirThere, Tolerant        \* the directory is there at the start; making it tolerates that another run just did

Thr == {1, 2}
Nb == {2, 3}
Axes == {1, 2}
Boots == {0, 1}
(* what the saved form of a metric depends on *)
Bakes(m) == CASE m \in {"crps", "sq_error", "rmse", "cdf0", "spread", "variance", "f_determ", "error", "ab_error"} -> {}
              [] m \in {"brier", "cdf", "roc", "sharpness"} -> {"t"}
              [] m \in {"iou_determ", "iou_prob"} -> {"t", "ax"}
              [] m = "reliability" -> {"t", "nb", "ax"}
              [] m = "binned_spread_skill" -> {"nb", "ax"}
              [] m = "corr" -> {"ax", "boot"}
              [] m = "brier_decomp" -> {"t", "ax", "boot"}
(* what the answer depends on *)
Asks(m) == Bakes(m) \cup (IF m \in {"cdf", "roc", "sharpness", "iou_determ", "iou_prob", "variance", "f_determ", "corr", "brier_decomp"} THEN {} ELSE {"ax", "boot"})
Keys(m) == IF NamesShow THEN Bakes(m) ELSE Bakes(m) \ {"ax", "nb"}
FileOf(m) == IF m = "rmse" THEN "sq_error" ELSE m
Restrict(q, K) == [k \in K \cap DOMAIN q |-> q[k]]

VARIABLES pc, set, cur, disk, tmp, val, answers, nops, ncrash, kept, focus, hist, dir
vars == <<pc, set, cur, disk, tmp, val, answers, nops, ncrash, kept, focus, hist, dir>>
None == [m |-> "none"]
Log(x) == hist' = IF Hist THEN Append(hist, x) ELSE hist

Init == /\ pc = [p \in Procs |-> "new"]
        /\ set = [p \in Procs |-> [ax |-> 1, boot |-> 0, save |-> FALSE]]
        /\ cur = [p \in Procs |-> None] /\ disk = <<>> /\ tmp = [p \in Procs |-> {}] /\ val = [p \in Procs |-> None]
        /\ answers = {} /\ nops = 0 /\ ncrash = 0 /\ kept = {} /\ focus \in Groups /\ hist = <<>> /\ dir = DirThere

Wipe(p, scratch) == IF scratch /\ ScratchWipes THEN disk' = <<>> /\ kept' = {} ELSE UNCHANGED <<disk, kept>>
(* construction; with several processes or after a crash the directory is reused *)
New(p) ==
  /\ pc[p] = "new" \/ (pc[p] = "idle" /\ "new" \in Reconf /\ nops < Ops)
  /\ \E scratch \in (IF Cardinality(Procs) > 1 \/ ncrash > 0 THEN {FALSE} ELSE BOOLEAN), a \in Axes, b \in (IF "boot" \in Reconf THEN Boots ELSE {0}) :
       /\ set' = [set EXCEPT ![p] = [ax |-> a, boot |-> b, save |-> TRUE]]
       /\ Wipe(p, scratch)
       /\ Log([op |-> "new", p |-> p, scr |-> scratch, ax |-> a, boot |-> b])
  /\ pc' = [pc EXCEPT ![p] = IF dir THEN "idle" ELSE "mkdir"] /\ nops' = nops + (IF pc[p] = "new" THEN 0 ELSE 1)
  /\ UNCHANGED <<cur, tmp, val, answers, ncrash, focus, dir>>
MakeDir(p) ==            \* the directory was missing when looked for
  /\ pc[p] = "mkdir"
  /\ pc' = [pc EXCEPT ![p] = IF dir /\ ~Tolerant THEN "failed" ELSE "idle"] /\ dir' = TRUE
  /\ Log([op |-> "step", p |-> p]) /\ UNCHANGED <<set, cur, disk, tmp, val, answers, nops, ncrash, kept, focus>>
Reconfigure(p) ==
  /\ pc[p] = "idle" /\ nops < Ops
  /\ \/ /\ "ax" \in Reconf /\ \E a \in Axes \ {set[p].ax} : set' = [set EXCEPT ![p].ax = a] /\ Log([op |-> "ax", p |-> p, v |-> a])
        /\ UNCHANGED <<disk, kept>>
     \/ /\ "boot" \in Reconf /\ \E b \in Boots \ {set[p].boot} : set' = [set EXCEPT ![p].boot = b] /\ Log([op |-> "boot", p |-> p, v |-> b])
        /\ UNCHANGED <<disk, kept>>
     \/ /\ "save" \in Reconf /\ set[p].save /\ set' = [set EXCEPT ![p].save = FALSE] /\ Log([op |-> "disable", p |-> p])
        /\ UNCHANGED <<disk, kept>>
     \/ /\ "save" \in Reconf /\ \E scratch \in BOOLEAN : Wipe(p, scratch) /\ Log([op |-> "enable", p |-> p, scr |-> scratch])
        /\ set' = [set EXCEPT ![p].save = TRUE]
  /\ nops' = nops + 1
  /\ UNCHANGED <<pc, cur, tmp, val, answers, ncrash, focus, dir>>
Ask(p) ==
  /\ pc[p] = "idle" /\ nops < Ops
  /\ \E m \in focus : \E t \in (IF "t" \in Bakes(m) THEN Thr ELSE {0}), n \in (IF "nb" \in Bakes(m) THEN Nb ELSE {0}) :
       /\ cur' = [cur EXCEPT ![p] = [m |-> m, t |-> t, nb |-> n, ax |-> set[p].ax, boot |-> set[p].boot]]
       /\ Log([op |-> "call", p |-> p, m |-> m, t |-> t, nb |-> n])
  /\ pc' = [pc EXCEPT ![p] = "load"] /\ nops' = nops + 1
  /\ UNCHANGED <<set, disk, tmp, val, answers, ncrash, kept, focus, dir>>
NameOf(q) == <<FileOf(q.m), Restrict(q, Keys(q.m))>>
Content(q) == [m |-> FileOf(q.m), part |-> Restrict(q, Bakes(q.m)), whole |-> TRUE]
Step(p) == Log([op |-> "step", p |-> p])
Load(p) ==
  /\ pc[p] = "load"
  /\ IF set[p].save /\ NameOf(cur[p]) \in DOMAIN disk
     THEN val' = [val EXCEPT ![p] = disk[NameOf(cur[p])]] /\ pc' = [pc EXCEPT ![p] = "answer"]
     ELSE val' = [val EXCEPT ![p] = Content(cur[p])] /\ pc' = [pc EXCEPT ![p] = IF set[p].save THEN "write" ELSE "answer"]
  /\ Step(p) /\ UNCHANGED <<set, cur, disk, tmp, answers, nops, ncrash, kept, focus, dir>>
Write(p) ==              \* from here until Rename the file is incomplete
  /\ pc[p] = "write"
  /\ IF AtomicSave THEN tmp' = [tmp EXCEPT ![p] = {NameOf(cur[p])}] /\ UNCHANGED disk
     ELSE disk' = (NameOf(cur[p]) :> [val[p] EXCEPT !.whole = FALSE]) @@ disk /\ UNCHANGED tmp
  /\ pc' = [pc EXCEPT ![p] = "rename"] /\ Step(p)
  /\ UNCHANGED <<set, cur, val, answers, nops, ncrash, kept, focus, dir>>
Rename(p) ==
  /\ pc[p] = "rename"
  /\ disk' = (NameOf(cur[p]) :> val[p]) @@ disk /\ tmp' = [tmp EXCEPT ![p] = {}]
  /\ pc' = [pc EXCEPT ![p] = "answer"] /\ Step(p)
  /\ UNCHANGED <<set, cur, val, answers, nops, ncrash, kept, focus, dir>>
(* the rest of the answer (averaging, bootstrap) uses the present settings *)
Answer(p) ==
  /\ pc[p] = "answer"
  /\ LET got == [m |-> val[p].m, whole |-> val[p].whole,
                 a |-> [k \in Asks(cur[p].m) |-> IF k \in DOMAIN val[p].part THEN val[p].part[k] ELSE cur[p][k]]]
         want == [m |-> FileOf(cur[p].m), whole |-> TRUE, a |-> Restrict(cur[p], Asks(cur[p].m))]
     IN answers' = answers \cup {<<got, want>>}
  /\ kept' = IF set[p].save THEN kept \cup {NameOf(cur[p])} ELSE kept
  /\ pc' = [pc EXCEPT ![p] = "idle"] /\ cur' = [cur EXCEPT ![p] = None] /\ val' = [val EXCEPT ![p] = None]
  /\ UNCHANGED <<set, disk, tmp, nops, ncrash, hist, focus, dir>>
Crash(p) ==
  /\ ncrash < Crashes /\ pc[p] # "new"
  /\ pc' = [pc EXCEPT ![p] = "new"] /\ cur' = [cur EXCEPT ![p] = None] /\ val' = [val EXCEPT ![p] = None]
  /\ tmp' = [tmp EXCEPT ![p] = {}] /\ ncrash' = ncrash + 1 /\ Log([op |-> "crash", p |-> p, at |-> pc[p]])
  /\ UNCHANGED <<set, disk, answers, nops, kept, focus, dir>>
Next == \E p \in Procs : New(p) \/ MakeDir(p) \/ Reconfigure(p) \/ Ask(p) \/ Load(p) \/ Write(p) \/ Rename(p) \/ Answer(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars

(* C17: an answer is the answer to the question asked *)
RightAnswers == \A x \in answers : x[1].a = x[2].a /\ x[1].m = x[2].m
(* C18, C19: no incomplete result is ever used *)
WholeAnswers == \A x \in answers : x[1].whole
(* C19: a run is never refused because of the other one *)
NoneFails == \A p \in Procs : pc[p] # "failed"
(* C18: what was answered with saving on stays until wiped *)
Durable == \A k \in kept : k \in DOMAIN disk /\ disk[k].whole
Finished == nops = Ops /\ \A p \in Procs : pc[p] = "idle"
Shown == Finished => PrintT("BEH " \o ToJson(hist))
=============================================================================
