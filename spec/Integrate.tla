------------------------------ MODULE Integrate ------------------------------
(* Numerical integration as a state machine: evaluations of N grid points, serial or by a pool in any
   completion order, results kept in memory or in a scratch file of the shared directory; evaluation
   of a point may fail.  Processes Procs run Runs integrations each.
   The last four constants switch off one safeguard each (mutants the invariants must reject). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Procs, Runs, Reorder, UniqueNames, CleanOnFail, Hist

VARIABLES pc, left, mode, env, files, fname, pool, pend, got, out, hist
vars == <<pc, left, mode, env, files, fname, pool, pend, got, out, hist>>
Points == 1..N
Modes == [par : BOOLEAN, mem : BOOLEAN, fail : 0..N]
Idle(p) == pc[p] = "idle"
Log(x) == hist' = IF Hist THEN Append(hist, x) ELSE hist

Init == /\ pc = [p \in Procs |-> "idle"] /\ left = [p \in Procs |-> Runs]
        /\ mode = [p \in Procs |-> [par |-> FALSE, mem |-> FALSE, fail |-> 0]]
        /\ env = [p \in Procs |-> "user"] /\ files = <<>> /\ fname = [p \in Procs |-> <<>>]
        /\ pool = [p \in Procs |-> FALSE] /\ pend = [p \in Procs |-> {}] /\ got = [p \in Procs |-> <<>>]
        /\ out = [p \in Procs |-> <<>>] /\ hist = <<>>

Tag(p, i) == <<p, left[p], i>>
Start(p) ==
  /\ Idle(p) /\ left[p] > 0
  /\ \E m \in Modes :
       /\ mode' = [mode EXCEPT ![p] = m]
       /\ pool' = [pool EXCEPT ![p] = m.par]
       /\ fname' = [fname EXCEPT ![p] = IF m.mem THEN (IF UniqueNames THEN <<p, left[p]>> ELSE <<0, 0>>) ELSE <<>>]
       /\ files' = IF m.mem THEN (fname'[p] :> [i \in Points |-> <<>>]) @@ files ELSE files
       /\ Log(<<"start", p, m>>)
  /\ env' = [env EXCEPT ![p] = "suppressed"]
  /\ pend' = [pend EXCEPT ![p] = Points] /\ got' = [got EXCEPT ![p] = <<>>]
  /\ pc' = [pc EXCEPT ![p] = "eval"]
  /\ UNCHANGED <<left, out>>
Next1(p) == CHOOSE i \in pend[p] : \A j \in pend[p] : i <= j
(* a pool may finish any pending point next *)
Eval(p) ==
  /\ pc[p] = "eval" /\ pend[p] # {}
  /\ \E i \in (IF mode[p].par THEN pend[p] ELSE {Next1(p)}) :
       /\ Log(<<"eval", p, i>>)
       /\ LET lost == mode[p].mem /\ fname[p] \notin DOMAIN files
          IN IF i = mode[p].fail \/ lost
             THEN /\ pc' = [pc EXCEPT ![p] = "failed"]
                  /\ UNCHANGED <<pend, got, files>>
             ELSE /\ pend' = [pend EXCEPT ![p] = @ \ {i}]
                  /\ got' = [got EXCEPT ![p] = Append(@, Tag(p, i))]
                  /\ files' = IF mode[p].mem THEN [files EXCEPT ![fname[p]][i] = Tag(p, i)] ELSE files
                  /\ pc' = pc
  /\ UNCHANGED <<left, mode, env, fname, pool, out>>
(* which evaluation each grid point of the sum uses *)
Used(p) == IF mode[p].mem THEN (IF fname[p] \in DOMAIN files THEN files[fname[p]] ELSE [i \in Points |-> <<>>])
           ELSE IF Reorder THEN [i \in Points |-> CHOOSE t \in {got[p][k] : k \in Points} : t[3] = i]
           ELSE got[p]
Right(p) == Used(p) = [i \in Points |-> Tag(p, i)]
Finish(p) ==
  /\ pc[p] = "failed" \/ (pc[p] = "eval" /\ pend[p] = {})
  /\ LET bad == pc[p] = "failed"
         clean == ~bad \/ CleanOnFail
     IN /\ out' = [out EXCEPT ![p] = Append(@, IF bad THEN "failed" ELSE IF Right(p) THEN "right" ELSE "wrong")]
        /\ files' = IF mode[p].mem /\ clean THEN [x \in DOMAIN files \ {fname[p]} |-> files[x]] ELSE files
        /\ env' = IF clean THEN [env EXCEPT ![p] = "user"] ELSE env
        /\ pool' = IF clean THEN [pool EXCEPT ![p] = FALSE] ELSE pool
        /\ Log(<<"end", p, out'[p][Len(out'[p])]>>)
  /\ pc' = [pc EXCEPT ![p] = "idle"] /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ UNCHANGED <<mode, fname, pend, got>>

Next == \E p \in Procs : Start(p) \/ Eval(p) \/ Finish(p)
Done == \A p \in Procs : Idle(p) /\ left[p] = 0
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C15, C19: a completed integration used, for every grid point, its own evaluation of that point *)
NeverWrong == \A p \in Procs : \A k \in 1..Len(out[p]) : out[p][k] # "wrong"
(* an integration fails only if an evaluation of its own failed *)
FailsOnlyForCause == \A p \in Procs : pc[p] = "failed" => mode[p].fail # 0
(* C16: nothing is left behind between integrations *)
CleanWhenIdle == \A p \in Procs : Idle(p) =>
   env[p] = "user" /\ ~pool[p] /\ (\A f \in DOMAIN files : f[1] # p) /\ (~UniqueNames \/ Cardinality(DOMAIN files) <= Cardinality(Procs) - 1)
Ends == <>Done
(* behaviours for replay in the real code *)
Shown == Done => PrintT("BEH " \o ToJson(hist))
=============================================================================
