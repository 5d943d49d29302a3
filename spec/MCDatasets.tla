----------------------------- MODULE MCDatasets -----------------------------
EXTENDS Datasets
VARIABLE x
Dims == {"num_flts", "num_parameters", "num_test_times", "num_search_times", "num_times", "num_stations", "num_chars"}
Vars == {"FLTs", "ParameterNames", "test_times", "search_times", "Times"}
Init == \E d \in SUBSET Dims : \E v \in SUBSET Vars : x = [d |-> d, v |-> v]
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
(* one name for the test times, nothing lost, one coordinate per dimension *)
Uniform == "num_test_times" \in OutDims(x.d) => "num_times" \in x.d
NothingLost == Cardinality(OutDims(x.d)) = Cardinality(x.d \ {"num_chars"})
OneEach == \A a, b \in OutCoords(x.d, x.v) : a[1] = b[1] => a = b
CoordsExist == \A c \in OutCoords(x.d, x.v) : c[1] \in OutDims(x.d) /\ c[2] \in x.v
UnitsKnown == \A t \in x.v \cap {"test_times", "search_times", "Times"} : t \in TimeUnits(x.d, x.v)
(* several files: every station once, the ranks in order, places strictly increasing *)
Parts == {[r |-> r, h |-> [i \in 1..m |-> 10 * r + i]] : r \in {0, 1, 2, 11}, m \in 1..3}
InitMany == \E P \in SUBSET Parts : (\A a, b \in P : a.r = b.r => a = b) /\ P # {} /\ x = [p |-> P]
Many == LET q == ByRank(x.p) j == Joined(q) l == Places(q, 10000)
        IN /\ {j[i] : i \in 1..Len(j)} = UNION {{p.h[i] : i \in 1..Len(p.h)} : p \in x.p} /\ Len(l) = Len(j)
           /\ \A i \in 1..(Len(j) - 1) : j[i] < j[i + 1] /\ l[i] < l[i + 1]
SpecMany == InitMany /\ [][Next]_x
=============================================================================
