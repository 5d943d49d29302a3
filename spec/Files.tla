-------------------------------- MODULE Files --------------------------------
(* Grid matrix files: what a sequence of writes leaves behind.  Contents are abstract matrices; a write is
   refused when the argument is no matrix, or when the file exists and overwriting was not requested. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Names, Mats, Ops, Guarded, CheckedFirst, Hist
VARIABLES file,     \* name -> content: "none" absent, "other" something written by someone else, or a matrix
          said,     \* verdict of the last write
          nops, hist
vars == <<file, said, nops, hist>>
NoMat == "bad"      \* an argument that is no matrix
Init == /\ file \in [Names -> {"none", "other"}] /\ said = "" /\ nops = 0
        /\ hist = <<[op |-> "start", f |-> file]>>
Refuse(n, m, ov) == m = NoMat \/ (file[n] # "none" /\ ~ov /\ Guarded)
Write(n, m, ov) ==
  /\ said' = IF Refuse(n, m, ov) THEN "refused" ELSE "written"
  /\ file' = IF Refuse(n, m, ov) THEN (IF m = NoMat /\ ~CheckedFirst THEN [file EXCEPT ![n] = "torn"] ELSE file)
             ELSE [file EXCEPT ![n] = m]
  /\ hist' = IF Hist THEN Append(hist, [op |-> "write", n |-> n, m |-> m, ov |-> ov]) ELSE hist
  /\ nops' = nops + 1
Next == nops < Ops /\ \E n \in Names, m \in Mats \cup {NoMat}, ov \in BOOLEAN : Write(n, m, ov)
Spec == Init /\ [][Next]_vars
(* an existing file changes only by a requested overwrite, and only to the matrix given *)
Protected == [][\A n \in Names : file[n] # "none" /\ file'[n] # file[n] => said' = "written" /\ file'[n] \in Mats]_vars
Only == \A n \in Names : file[n] \in {"none", "other"} \cup Mats
KeptUnlessAsked == [][\A n \in Names, m \in Mats \cup {NoMat} : (Write(n, m, FALSE) /\ file[n] # "none") => file'[n] = file[n]]_vars
Shown == nops = Ops => PrintT("BEH " \o ToJson(hist))
=============================================================================
