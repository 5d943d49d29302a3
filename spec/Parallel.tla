------------------------------ MODULE Parallel ------------------------------
(* Cell-by-cell work over an array, split along one axis into slices, the slices handed out in chunks
   to workers that finish in any order, and the results put together again along the same axis.
   C04: the outcome is the serial one.  Ordered and SameAxis switch off one safeguard each. *)
EXTENDS Nd, TLC, FiniteSets
CONSTANTS MaxWorkers, Ordered, SameAxis

Shapes == {<<1>>, <<3>>, <<4>>, <<2, 3>>, <<3, 2>>, <<4, 4>>, <<2, 1, 4>>, <<3, 4, 2>>}
VARIABLES shape, axis, chunk, workers, todo, run, done
vars == <<shape, axis, chunk, workers, todo, run, done>>

Ceil(a, b) == (a + b - 1) \div b
NChunks == Ceil(shape[axis], chunk)
SlicesOf(c) == {j \in 1..shape[axis] : Ceil(j, chunk) = c}
Init == /\ shape \in Shapes /\ axis \in 1..Len(shape)
        /\ chunk \in 1..3 /\ workers \in 1..MaxWorkers
        /\ todo = [i \in 1..NChunks |-> i] /\ run = {} /\ done = <<>>
Take == /\ todo # <<>> /\ Cardinality(run) < workers
        /\ run' = run \cup {Head(todo)} /\ todo' = Tail(todo)
        /\ UNCHANGED <<shape, axis, chunk, workers, done>>
Finish == \E c \in run : /\ run' = run \ {c} /\ done' = Append(done, c)
                         /\ UNCHANGED <<shape, axis, chunk, workers, todo>>
Next == Take \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Complete == todo = <<>> /\ run = {}

(* the cell of the input whose value ends up in cell ix (0-based index vector) of the result *)
Order == IF Ordered THEN [i \in 1..NChunks |-> i] ELSE done
RECURSIVE Flat(_)
Flat(cs) == IF cs = <<>> THEN <<>> ELSE SetToSortSeq(SlicesOf(Head(cs)), <) \o Flat(Tail(cs))
Slices == Flat(Order)
Source(ix) ==
  IF SameAxis THEN [a \in 1..Len(shape) |-> IF a = axis THEN Slices[ix[a] + 1] - 1 ELSE ix[a]]
  ELSE \* slices laid one after the other along the last axis
       LET n == Len(shape)
           w == IF axis = n THEN 1 ELSE shape[n]
           j == ix[n] \div w
       IN [a \in 1..n |-> IF a = axis THEN (IF j + 1 \in 1..Len(Slices) THEN Slices[j + 1] - 1 ELSE 0)
                          ELSE IF a = n THEN ix[n] % w ELSE ix[a]]
Cells == {ix \in [1..Len(shape) -> 0..3] : \A a \in 1..Len(shape) : ix[a] < shape[a]}
LikeSerial == Complete => \A ix \in Cells : Source(ix) = ix
Ends == <>Complete
=============================================================================
