------------------------------ MODULE Datasets ------------------------------
(* Analog datasets: what opening a file with given dimensions and variables presents. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CoordVar == [num_flts |-> "FLTs", num_parameters |-> "ParameterNames", num_test_times |-> "test_times",
             num_search_times |-> "search_times", num_times |-> "Times"]
TimeVars == {"test_times", "search_times", "Times", "num_test_times", "num_times"}
(* dims: names of the dimensions in use; vars: names of the variables *)
Renames(dims) == "num_times" \notin dims /\ "num_test_times" \in dims
Name(dims, d) == IF d = "num_test_times" /\ Renames(dims) THEN "num_times" ELSE d
OutDims(dims) == {Name(dims, d) : d \in dims \ {"num_chars"}}
(* <<dimension as presented, variable whose values are its coordinates>> *)
OutCoords(dims, vs) == {<<Name(dims, d), CoordVar[d]>> : d \in {k \in dims \cap DOMAIN CoordVar : CoordVar[k] \in vs}}
TimeUnits(dims, vs) == (TimeVars \cap vs) \cup {c[1] : c \in {k \in OutCoords(dims, vs) : k[1] = "num_times"}}

(* Several files, each with the stations of one rank (parts: <<[r |-> rank, h |-> what each of its stations holds]>>):
   the stations in the order of the ranks and, within a file, of the file; the i-th of m stations of rank r is at r + (i-1)/m. *)
RECURSIVE ByRank(_)
ByRank(parts) == IF parts = {} THEN <<>> ELSE LET p == CHOOSE x \in parts : \A y \in parts : x.r <= y.r IN <<p>> \o ByRank(parts \ {p})
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps).h \o Joined(Tail(ps))
Places(ps, unit) == LET at(p) == [i \in 1..Len(p.h) |-> p.r * unit + ((i - 1) * unit) \div Len(p.h)]
                        F[k \in 0..Len(ps)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o at(ps[k]) IN F[Len(ps)]
=============================================================================
