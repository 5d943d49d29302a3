-------------------------------- MODULE Nd --------------------------------
(* Row-major n-d arrays: [s |-> <<d1, .., dn>>, v |-> flat sequence of elements]. *)
EXTENDS Rat

Prod(q) == FoldLeft(LAMBDA a, b : a * b, 1, q)
Size(s) == Prod(s)
Stride(s, k) == Prod(SubSeq(s, k + 1, Len(s)))

(* offsets (0-based) of all index combinations of the given axes, row-major *)
RECURSIVE Offs(_, _)
Offs(s, axes) ==
  IF axes = <<>> THEN <<0>>
  ELSE LET a == axes[Len(axes)]
           pre == Offs(s, SubSeq(axes, 1, Len(axes) - 1))
           st == Stride(s, a)
       IN [k \in 1..(Len(pre) * s[a]) |-> pre[((k - 1) \div s[a]) + 1] + ((k - 1) % s[a]) * st]

SortedAxes(A) == SetToSortSeq(A, LAMBDA x, y : x < y)
Kept(s, A) == SortedAxes((1..Len(s)) \ A)
KeptShape(s, A) == LET k == Kept(s, A) IN [i \in 1..Len(k) |-> s[k[i]]]

(* for each kept cell (row-major) the flat positions (1-based) of the elements aggregated into it *)
Groups(s, A) ==
  LET ko == Offs(s, Kept(s, A))
      go == Offs(s, SortedAxes(A))
  IN [k \in 1..Len(ko) |-> [j \in 1..Len(go) |-> ko[k] + go[j] + 1]]

Pick(v, pos) == [j \in 1..Len(pos) |-> v[pos[j]]]
Reduce(arr, A, Op(_)) ==
  LET g == Groups(arr.s, A)
  IN [s |-> KeptShape(arr.s, A), v |-> [k \in 1..Len(g) |-> Op(Pick(arr.v, g[k]))]]
Arr(s, v) == [s |-> s, v |-> v]
ArrMap(F(_), a) == [s |-> a.s, v |-> Map(F, a.v)]
IsArr(a) == Len(a.v) = Size(a.s)

(* python axis (0-based, possibly negative) -> 1-based *)
Ax1(a, n) == IF a < 0 THEN n + a + 1 ELSE a + 1
AxSet(none, ax, n) == IF none THEN 1..n ELSE {Ax1(ax[i], n) : i \in 1..Len(ax)}
=============================================================================
