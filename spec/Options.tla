------------------------------- MODULE Options -------------------------------
(* Process-wide options: what the user sets before and after the package is imported, and which value an
   answer is computed with.  Values of every option: "D" documented default, "A", "B"; "no" is not set. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Opts, Ops, KeepsUser, Fills, AtCall, Hist
VARIABLES env, user, phase, atimport, atbuild, built, said, nops, hist
vars == <<env, user, phase, atimport, atbuild, built, said, nops, hist>>
Values == {"D", "A", "B"}
Log(x) == hist' = IF Hist THEN Append(hist, x) ELSE hist
Init == /\ env \in [Opts -> {"no", "A"}] /\ user = env /\ phase = "out" /\ built = FALSE
        /\ atimport = env /\ atbuild = env /\ said = <<>> /\ nops = 0 /\ hist = <<[op |-> "start", env |-> env]>>
(* before and after the import alike *)
Put(k, v) == /\ env' = [env EXCEPT ![k] = v] /\ user' = [user EXCEPT ![k] = v] /\ said' = <<>>
             /\ Log([op |-> "put", k |-> k, v |-> v]) /\ UNCHANGED <<phase, atimport, atbuild, built>>
Import == LET e == [k \in Opts |-> IF env[k] = "no" THEN (IF Fills THEN "D" ELSE "no") ELSE IF KeepsUser THEN env[k] ELSE "D"]
          IN /\ env' = e /\ phase' = "in" /\ built' = FALSE /\ atimport' = e /\ atbuild' = e
             /\ Log([op |-> "import"]) /\ said' = <<>> /\ UNCHANGED user
Build == /\ phase = "in" /\ built' = TRUE /\ atbuild' = env /\ Log([op |-> "build"]) /\ said' = <<>> /\ UNCHANGED <<env, user, phase, atimport>>
Used == IF AtCall = "call" THEN env ELSE IF AtCall = "import" THEN atimport ELSE atbuild
Ask(k) == /\ built /\ said' = [k |-> k, v |-> Used[k], by |-> "option"] /\ Log([op |-> "ask", k |-> k, v |-> Used[k]])
          /\ UNCHANGED <<env, user, phase, atimport, atbuild, built>>
AskWith(k, v) == /\ built /\ said' = [k |-> k, v |-> v, by |-> "argument"] /\ Log([op |-> "askwith", k |-> k, v |-> v])
                 /\ UNCHANGED <<env, user, phase, atimport, atbuild, built>>
Next == /\ nops < Ops /\ nops' = nops + 1
        /\ \/ \E k \in Opts, v \in Values : v # env[k] /\ Put(k, v)
           \/ Import \/ Build \/ \E k \in Opts : Ask(k) \/ \E v \in Values : AskWith(k, v)
Finish == nops = Ops /\ nops' = Ops + 1 /\ UNCHANGED <<env, user, phase, atimport, atbuild, built, said, hist>>
Spec == Init /\ [][Next \/ Finish]_vars

(* C25 *)
Kept == \A k \in Opts : user[k] # "no" => env[k] = user[k]
Filled == phase = "in" => \A k \in Opts : env[k] # "no" /\ (user[k] = "no" => env[k] = "D")
ReadAtCall == (said # <<>> /\ said.by = "option") => said.v = env[said.k]
Shown == nops = Ops + 1 => PrintT("BEH " \o ToJson(hist))
=============================================================================
