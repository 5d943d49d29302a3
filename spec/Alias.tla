-------------------------------- MODULE Alias --------------------------------
(* Arrays as buffers in memory: the user's forecast and observations, what verifiers derive from them,
   and the arrays calls have returned, into which the user may write.  Two verifiers share the inputs. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Ops, Copies, InPlace, Memo, Hist

Metrics == {"f_determ", "cells", "averaged", "sorted"}
VARIABLES mem,      \* buffer -> content: 1 forecast, 2 observations, 3 and 4 derived (per verifier), 5.. returned
          results,  \* sequence of [m, p, buf, was, own]: own: the user wrote into it
          memo,     \* verifier, metric -> buffer remembered, when results are remembered
          nops, hist
vars == <<mem, results, memo, nops, hist>>
Log(x) == hist' = IF Hist THEN Append(hist, x) ELSE hist
Init == mem = <<"f", "o", "c", "c">> /\ results = <<>> /\ memo = <<>> /\ nops = 0 /\ hist = <<>>
Value(m, f, o, c) == IF m \in {"f_determ"} THEN c ELSE m \o "(" \o f \o "," \o o \o "," \o c \o ")"
Call(p, m) ==
  LET v == Value(m, mem[1], mem[2], mem[2 + p])
      m1 == IF InPlace /\ m = "sorted" THEN [mem EXCEPT ![2] = "sorted " \o @] ELSE mem
      remembered == Memo /\ <<p, m>> \in DOMAIN memo
      buf == IF remembered THEN memo[<<p, m>>] ELSE IF m = "f_determ" /\ ~Copies THEN 2 + p ELSE Len(mem) + 1
  IN /\ mem' = IF buf > Len(mem) THEN Append(m1, v) ELSE m1
     /\ memo' = IF Memo THEN (<<p, m>> :> buf) @@ memo ELSE memo
     /\ results' = Append(results, [m |-> m, p |-> p, buf |-> buf, was |-> mem'[buf], own |-> FALSE])
     /\ Log([op |-> "call", p |-> p, m |-> m])
Scribble(i) ==
  /\ ~results[i].own
  /\ mem' = [mem EXCEPT ![results[i].buf] = "scribble"]
  /\ results' = [results EXCEPT ![i].own = TRUE]
  /\ Log([op |-> "scribble", i |-> i]) /\ UNCHANGED memo
Next == /\ nops < Ops /\ nops' = nops + 1
        /\ (\E p \in 1..2, m \in Metrics : Call(p, m)) \/ (\E i \in 1..Len(results) : Scribble(i))
Spec == Init /\ [][Next]_vars

Untouched == mem[1] = "f" /\ mem[2] = "o"
Repeatable == \A i \in 1..Len(results) : results[i].was = Value(results[i].m, "f", "o", "c")
Kept == \A i \in 1..Len(results) : results[i].own \/ mem[results[i].buf] = results[i].was
Shown == nops = Ops => PrintT("BEH " \o ToJson(hist))
=============================================================================
