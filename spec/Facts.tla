-------------------------------- MODULE Facts -------------------------------
(* Verdicts on recorded facts that are not single metric calls. *)
EXTENDS Judge, Dist, Datasets
RQ == INSTANCE Requests

AllNear(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Abs(x[i] - y[i]) <= tol

AxF(e) == AxSet(e.axn, e.ax, Len(e.s))
(* counts of n equally likely outcomes: each within six standard deviations of its mean *)
FairCounts(c) == LET n == Len(c) tot == ISum(c)
                 IN \A i \in 1..n : LET d == c[i] * n - tot IN (Abs(d) < 40000) /\ d * d <= 36 * tot * (n - 1)

SeqMax(q) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, q[1], q)
SeqMin(q) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, q[1], q)

(* Trapezoid sums of the values e.y[j][i] (fixed point) of cell i at e.n even points from e.lo to e.hi (whole numbers).
   e.kind: mean, the first moment; variance: the second moment; crps.  e.r: the results times e.by, in fixed point *)
FixedIntegral(e) ==
  LET n == e.n
      w == e.hi - e.lo
      X(j) == e.lo * (n - 1) + w * (j - 1)            \* times n - 1
      Sq(j) == X(j) * X(j) + X(j + 1) * X(j + 1)
      term(j, i) == CASE e.kind = "crps" -> (e.y[j][i] + e.y[j + 1][i]) * w
                      [] e.kind = "mean" -> (X(j) + X(j + 1)) * (e.y[j + 1][i] - e.y[j][i])
                      [] OTHER -> (Sq(j) \div (n - 1)) * (e.y[j + 1][i] - e.y[j][i])
      rest(i) == IF e.kind # "variance" THEN 0
                 ELSE ISum([j \in 1..(n - 1) |-> (Sq(j) % (n - 1)) * (e.y[j + 1][i] - e.y[j][i])]) \div (n - 1)
      total(i) == (ISum([j \in 1..(n - 1) |-> term(j, i)]) + rest(i)) \div (2 * (n - 1))
  IN [i \in 1..Len(e.r) |-> total(i)]

RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
IntRoot(n) == IF n <= 0 THEN 0 ELSE Newton(n, n \div 2 + 1)
(* Means of e.k draws from the values e.v (e.c times each), e.reps times: their mean, and the ends of the interval when the
   mean of e.k draws is nearly normal, within six standard deviations.  All in thousandths. *)
NormalEnd(conf) == CASE conf = <<1, 2>> -> 674 [] conf = <<4, 5>> -> 1282 [] conf = <<9, 10>> -> 1645
NormalErr(conf) == CASE conf = <<1, 2>> -> 1363 [] conf = <<4, 5>> -> 1709 [] conf = <<9, 10>> -> 2113
ManyDraws(e) ==
  LET n == ISum(e.c)
      sm == ISum([i \in 1..Len(e.v) |-> e.v[i] * e.c[i]])
      sq == ISum([i \in 1..Len(e.v) |-> e.v[i] * e.v[i] * e.c[i]])
      sd == (IntRoot(sq * n - sm * sm) * 1000) \div n
      mu == (1000 * sm) \div n
      near(x, y, tol) == Abs(x - y) <= tol
      unit == (100 * sd) \div IntRoot(10000 * e.k)
      half == (NormalEnd(e.conf) * unit) \div 1000
      slack == (6 * NormalErr(e.conf) * unit) \div (1000 * IntRoot(e.reps)) + unit \div 6 + 4
  IN When(near(e.mid, mu, (6 * sd) \div IntRoot(e.k * e.reps) + 4), "mean of the interval")
     \cup IF e.k < 30 THEN {} ELSE When(near(e.lo, mu - half, slack) /\ near(e.hi, mu + half, slack), "ends of the interval")

Fact(e, st) ==
  CASE e.f = "near" ->        \* fixed-point sequences agree
         IF e.sx # e.sy THEN {"shape"} ELSE When(AllNear(e.x, e.y, e.tol), e.why)
    [] e.f = "aggregate" ->   \* result = mean over the axes of the cells' own values
         LET g == TLCEval(Groups(e.cells.s, AxSet(e.axn, e.ax, Len(e.cells.s))))
             ks == KeptShape(e.cells.s, AxSet(e.axn, e.ax, Len(e.cells.s)))
         IN IF e.r.s # ks THEN {"shape"}
            ELSE When(\A k \in 1..Len(g) : LET n == Len(g[k])
                       IN Abs(ISum(Pick(e.cells.v, g[k])) - n * e.r.v[k]) <= 2 * n, e.why)
    [] e.f = "ensprob" ->
         LET D == [k |-> "ens", f |-> e.d.f, u |-> e.d.u]
             p == EventProb(D, [eax |-> e.eax], e.over, e.t)
         IN IF e.r.t # "ok" THEN {"refused"} ELSE SameAll(e.r.r, <<Arr(DropAxis(D.f.s, e.eax), p)>>)
    [] e.f = "fair" -> When(FairCounts(e.c), e.why)
    [] e.f = "relindex" -> IF e.r.t # "ok" THEN {"refused"} ELSE When(e.r.r[1].v = <<ReliabilityIndex(e.h)>>, "reliability index")
    [] e.f = "rel" -> JRel(e.p, e.ev, e.s, AxF(e), e.nb, e.boot, e.r, [st EXCEPT !.reps = e.reps, !.conf = e.conf])
    [] e.f = "roc" ->         \* only the order of the probabilities counts: e.p are their ranks
         IF e.r.t # "ok" THEN {"refused"} ELSE JRoc([i \in 1..Len(e.p) |-> R(e.p[i], 1)], e.ev, e.r)
    [] e.f = "decomp" -> IF e.r.t # "ok" THEN {"refused"}
                         ELSE JDecomp(e.p, e.ev, e.s, AxF(e), e.boot, e.r, [st EXCEPT !.reps = e.reps, !.conf = e.conf])
    [] e.f = "reledge" -> JRelEdge(e.k, e.d, e.nb, e.ev, e.s, AxF(e), e.r)
    [] e.f = "decompedge" -> JDecompEdge(e.k, e.d, e.ev, e.s, AxF(e), e.r)
    [] e.f = "corr" -> IF e.r.t # "ok" THEN {"refused"}
                       ELSE JCorr(e.x, e.y, e.s, AxF(e), e.boot, e.r, [st EXCEPT !.reps = e.reps, !.conf = e.conf])
    [] e.f = "place" ->       \* where the numbers of an integration lie: as the argument says, else the option, else with the saved results
         When(e.at = <<IF e.arg THEN "arg" ELSE IF e.opt THEN "opt" ELSE IF e.own THEN "own" ELSE "cwd">>, "place of the scratch file")
    [] e.f = "corrperm" ->    \* long series e.x and e.y, one an arrangement of the other: the same mean and variance
         LET n == Len(e.x)
             cnt(q, v) == Cardinality({i \in 1..n : q[i] = v})
             m == ISum(e.x)
             sxy == n * ISum([i \in 1..n |-> e.x[i] * e.y[i]]) - m * m
             sxx == n * ISum([i \in 1..n |-> e.x[i] * e.x[i]]) - m * m
         IN When(\A v \in ToSet(e.x) \cup ToSet(e.y) : cnt(e.x, v) = cnt(e.y, v), "not an arrangement")
            \cup When(Near(e.r * (sxx \div 1024), (sxy \div 1024) * 16384, 49152 + 2 * (sxx \div 1024)), "not the correlation")
    [] e.f = "ss" -> JSS(e.var, e.sq, e.s, AxF(e), e.nb, e.boot, e.r, [st EXCEPT !.reps = e.reps, !.conf = e.conf])
    [] e.f = "boot" ->        \* triples of resampled means of the values e.v, shape e.s
         IF e.r.t # "ok" THEN {"refused"} ELSE JBoot(e.v, e.s, AxF(e), e.boot, e.r, [st EXCEPT !.reps = e.reps, !.conf = e.conf])
    [] e.f = "central" ->     \* values 0..n-1 equally likely, n = e.n: the interval of many single draws is the central share
         LET dl == RMul(RSub(One, e.conf), <<1, 2>>)
             near(x, q) == \E v \in {RSub(R(x, 1), RMul(q, R(e.n, 1)))} : RLe(v, R(e.tol, 1)) /\ RLe(R(-e.tol, 1), v)
         IN When(near(e.lo, dl), "lower end") \cup When(near(e.hi, RSub(One, dl)), "upper end") \cup When(near(e.mid, <<1, 2>>), "mean")
    [] e.f = "trapezoid" -> LET z == TLCEval(FixedIntegral(e)) IN When(\A i \in 1..Len(z) : Abs(z[i] - e.r[i]) <= e.tol, e.why)
    [] e.f = "draws" -> ManyDraws(e)
    [] e.f = "twopoint" ->    \* replicates are -1 with probability e.p and 1 otherwise: quantiles of many replicates
         LET dl == RMul(RSub(One, e.conf), <<1, 2>>)
             q(z) == IF RLt(z, e.p) THEN -1 ELSE 1
         IN When(e.lo = q(dl), "lower end") \cup When(e.hi = q(RSub(One, dl)), "upper end")
    [] e.f = "iou" -> IF e.r.t # "ok" THEN {"refused"} ELSE JIou(e.fb, e.ob, e.s, AxF(e), e.r)
    [] e.f = "integral" ->    \* e.kind of the forecast e.d over the grid of e.n points from e.lo to e.hi (or the default range)
         LET ob == [cls |-> e.cls, eax |-> e.eax, trunc |-> FALSE, ib |-> e.n,
                    ir |-> IF e.auto THEN DefaultRange(ObsOf(e.d), st.mult) ELSE <<e.lo, e.hi>>]
         IN IF e.r.t # "ok" THEN {"refused"} ELSE SameAll(e.r.r, <<Arr(e.d.o.s, Integral(e.d, ob, e.kind))>>)
    [] e.f = "clean" ->       \* nothing left behind by an integration
         When(e.env0 = e.env1, "settings changed") \cup When(e.files0 = e.files1, "files left") \cup When(~e.pool, "pool left running")
    [] e.f = "dist" ->        \* e.r: reported probabilities of the cells e.c
         When(\A k \in 1..Len(e.c) : CellIs(e.c[k], e.r[k], e.tol), e.why)
    [] e.f = "dm" ->          \* Diebold-Mariano: series e.o, e.p, e.q, the result as sign e.g, angle e.sn, e.cs, e.an and p-value e.pv
         LET d == LossDiff(e.o, e.p, e.q, e.crit, e.pw)
             x == DMSigned(d, e.h)
             nu == Len(d) - 1
         IN When(e.g = x[1], "sign") \cup When(Near(Mul(e.sn, e.sn), AngleSq(x[2], nu), 16), "statistic")
            \cup When(Near(TTail(nu, e.sn, e.cs, e.an), e.pv, 64), "p-value")
    [] e.f = "dmnone" ->      \* a negative long-run variance has no root
         When(RLt(LongRun(LossDiff(e.o, e.p, e.q, e.crit, e.pw), e.h), Zero) => e.none, "statistic of a negative variance")
    [] e.f = "dmlong" ->      \* long horizons, in fixed point: whole mean; q2 = statistic^2 in units of 2^-10
         LET d == LossDiff(e.o, e.p, e.q, e.crit, 2)
             z == [i \in 1..Len(d) |-> d[i][1]]
             n == Len(z)
             g == LongRun6(z, e.h)
             want == DMRhs(z, e.h)
         IN When(\A i \in 1..n : d[i][2] = 1, "whole losses") \cup When(e.g = Sgn(ISum(z)), "sign")
            \cup When(g >= 512 => Near(e.q2 * g, want, e.q2 * 2 + g + 64), "statistic")
    [] e.f = "ttail" -> When(Near(Mul(e.sn, e.sn) + Mul(e.cs, e.cs), Unit, 4) /\ Near(TTail(e.nu, e.sn, e.cs, e.an), e.pv, 64 + e.nu * e.nu), "p-value")
    [] e.f = "dataset" ->     \* a file with dimensions e.dims, variables e.vs (content e.h, dimensions e.vd), opened as e.od, e.oc, e.oh, e.ovd, e.un
         LET dims == ToSet(e.dims) vs == ToSet(e.vs)
         IN When(ToSet(e.od) = OutDims(dims), "dimensions")
            \cup When(\A c \in OutCoords(dims, vs) : c[1] \in DOMAIN e.oc /\ e.oc[c[1]] = e.h[c[2]], "coordinates")
            \cup When(\A v \in vs : v \in DOMAIN e.oh /\ e.oh[v] = e.h[v], "values")
            \cup When(\A v \in vs : v \in DOMAIN e.ovd /\ e.ovd[v] = SelectSeq([i \in 1..Len(e.vd[v]) |-> Name(dims, e.vd[v][i])], LAMBDA d : d # "num_chars"), "variable dimensions")
            \cup When(\A t \in TimeUnits(dims, vs) : t \in DOMAIN e.un /\ e.un[t] = "seconds since 1970-01-01", "time units")
    [] e.f = "kernel" ->      \* kernel-density probability e.v of not exceeding e.t, members e.m (both in eighths of the bandwidth), grid step e.g thousandths of the bandwidth
         LET F(u) == IF e.kernel = "gaussian" THEN (IF u >= 40 THEN Unit ELSE IF u <= -40 THEN 0 ELSE Phi(u))
                     ELSE IF u >= 8 THEN Unit ELSE IF u <= -8 THEN 0 ELSE (u + 8) * (Unit \div 16)
             mean == FoldLeft(LAMBDA x, k : x + F(e.t - e.m[k]) \div Len(e.m), 0, [k \in 1..Len(e.m) |-> k])
         IN When(e.v <= Unit + e.g * 700000 /\ Near(e.v, mean, e.g * 700000 + 4096), "not the kernel's distribution function")
    [] e.f = "manyfiles" ->   \* files of ranks e.parts.r with stations e.parts.h, opened as one with stations e.h placed at e.at
         LET ps == ByRank(ToSet(e.parts)) dims == ToSet(e.dims) vs == ToSet(e.vs)
         IN When(e.h = Joined(ps), "stations of several files")
            \cup When(AllNear(e.at, Places(ps, 10000), 1), "places of stations")
            \cup When(ToSet(e.od) = OutDims(dims), "dimensions")
            \cup When(\A c \in {k \in OutCoords(dims, vs) : k[2] \in {"FLTs", "test_times"}} : c[1] \in DOMAIN e.oc /\ e.oc[c[1]] = e.own[c[2]], "coordinates")
            \cup When(\A t \in {c[1] : c \in {k \in OutCoords(dims, vs) : k[2] = "test_times"}} : t \in DOMAIN e.un /\ e.un[t] = "seconds since 1970-01-01", "time units")
    [] e.f = "ensreq" ->      \* members e.fs, observations e.os, axis asked for e.ax (99: none); e.used is the axis that was used (99: refused)
         When(e.used = RQ!MemberAxis(e.fs, e.os, e.ax), IF RQ!EnsOk(e.fs, e.os, e.ax) THEN "member axis" ELSE "ill-posed ensemble accepted")
    [] e.f = "axreq" -> When(e.ok = RQ!AxesOk(e.axs, e.n), IF e.ok THEN "axes accepted that the data do not have" ELSE "axes refused")
    [] e.f = "probreq" -> When(e.ok = RQ!ProbOk(e.c, e.sh, e.os), IF e.ok THEN "ill-posed distribution accepted" ELSE "distribution refused")
    [] e.f = "setreq" -> LET v == RQ!KindVerdict(e.k, e.kind) IN When(v = "either" \/ e.ok = (v = "ok"), IF e.ok THEN "wrong kind accepted: " \o e.k ELSE "refused: " \o e.k)
    [] e.f = "askreq" -> When(e.got = RQ!Verdict(e.c, e.m, e.trunc, e.mem, e.th), e.got \o ": " \o e.m)
    [] e.f = "proper" -> When(\A k \in 1..Len(e.F) : Proper(e.F[k]), e.why)
    [] e.f = "complement" -> When(Len(e.x) = Len(e.y) /\ \A k \in 1..Len(e.x) : Near(e.x[k] + e.y[k], Unit, 1), e.why)
    [] e.f = "truncown" ->    \* truncated probabilities e.y against the plain ones e.x and those at zero e.z
         When(\A k \in 1..Len(e.x) : TruncIs(e.y[k], e.x[k], e.z[k], e.pos[k], e.tol), e.why)
    [] e.f = "hurdleown" ->   \* hurdle probabilities e.y against the plain ones e.x and chances e.p
         When(\A k \in 1..Len(e.x) : Near(e.y[k], HurdleOf(e.p[k], e.x[k], e.pos[k]), e.tol), e.why)
    [] e.f = "sample" ->      \* e.c[k] of e.m draws are at most the k-th value, whose probability is e.p[k]
         When(\A k \in 1..Len(e.c) :
                LET p == e.p[k] \div 65536                      \* 2^-14
                    mean == (e.m * p) \div 16384
                    var == (e.m * ((p * (16384 - p)) \div 16384)) \div 16384 + 1
                    d == Abs(e.c[k] - mean)
                IN d * d <= 44 * var + 15 * d, e.why)           \* Bernstein's inequality, chance below 10^-9
    [] e.f = "members" ->     \* fixed-point members e.v of shape e.s on axis e.ax: per-cell spread e.sp and admissible ranks e.rk of e.o
         LET g == Groups(e.s, {e.ax})
         IN When(Len(e.sp) = Len(g) /\ \A k \in 1..Len(g) : Abs(SeqMax(Pick(e.v, g[k])) - SeqMin(Pick(e.v, g[k])) - e.sp[k]) <= 2, "spread")
            \cup When(Len(e.rk) = Len(g) /\ \A k \in 1..Len(g) :
                 LET less == Cnt(Pick(e.v, g[k]), LAMBDA y : y < e.o[k] - 1) eq == Cnt(Pick(e.v, g[k]), LAMBDA y : Abs(y - e.o[k]) <= 1)
                 IN e.rk[k] >= less + 1 /\ e.rk[k] <= less + eq + 1, "rank")
    [] e.f = "crpsint" -> When(Near(CrpsSum(e.F, e.k), e.c, e.tol), e.why)
    [] e.f = "moments" -> When(Near(MeanSum(e.F), e.m, e.tolm), "mean") \cup When(Near(SecondSum(e.F), e.q, e.tolq), "variance")
    [] e.f = "equal" -> When(e.x = e.y, e.why)
    [] e.f = "true" -> When(e.x, e.why)
    [] e.f = "range" -> When(\A i \in 1..Len(e.x) : e.lo <= e.x[i] /\ e.x[i] <= e.hi, e.why)
    [] e.f = "exc" -> When(e.r.t = "exc", e.why)
    [] e.f = "ok" -> When(e.r.t = "ok", e.why)
=============================================================================
