----------------------------- MODULE MCRequests -----------------------------
(* The rules of Requests over all small shapes and axes. *)
EXTENDS Requests
CONSTANTS MaxDim, MaxLen
VARIABLES fs, os, a
Shapes == UNION {[1..n -> 1..MaxLen] : n \in 0..MaxDim}
Init == fs \in Shapes /\ os \in Shapes /\ a \in (-MaxDim - 1)..MaxDim \cup {NoAxis}
Spec == Init /\ [][UNCHANGED <<fs, os, a>>]_<<fs, os, a>>
M == MemberAxis(fs, os, a)
(* an accepted axis is an end, and what remains is the shape of the observations *)
Ends == M # NoAxis => M \in {0, Len(fs) - 1} /\ Without(fs, M) = os /\ Len(fs) = Len(os) + 1
(* naming the inferred axis changes nothing; so does counting from the other end *)
Explicit == (a = NoAxis /\ M # NoAxis) => MemberAxis(fs, os, M) = M /\ MemberAxis(fs, os, M - Len(fs)) = M
(* the first axis is inferred only where the last one would not do *)
LastFirst == (a = NoAxis /\ M = 0 /\ Len(fs) > 1) => ~EnsOk(fs, os, -1)
(* inference finds an axis whenever an end fits *)
Complete == (a = NoAxis /\ M = NoAxis) => \A b \in -MaxDim..MaxDim : ~EnsOk(fs, os, b)
(* never a middle axis, even where it would fit *)
NoMiddle == (a # NoAxis /\ M # NoAxis) => Norm(Len(fs), a) = M
(* axis lists: each in range, none twice, whatever the end counted from *)
Axes == \A x, y \in -MaxDim..MaxDim : AxesOk(<<x, y>>, Len(fs)) =>
          InRange(Len(fs), x) /\ InRange(Len(fs), y) /\ x # y /\ (x - y) # Len(fs) /\ (y - x) # Len(fs)
=============================================================================
