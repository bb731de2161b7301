------------------------------- MODULE T3FNum -------------------------------
(***************************************************************************)
(* Decompositions.  Rounding and conversion are relations: exact when the  *)
(* caps allow it; otherwise any result B of the allowed ranks that is an   *)
(* orthogonal-projection approximation of A with the TT-SVD error bound.   *)
(***************************************************************************)
EXTENDS Judge

Unbounded == 1000000000
\* cap: [k |-> "none" | "inf"] or [k |-> "num", v |-> number]
\*      or [k |-> "vec", v |-> sequence]
CapAt(cap, k) == CASE cap.k \in {"none", "inf"} -> Unbounded
                   [] cap.k = "num" -> cap.v
                   [] cap.k = "vec" -> cap.v[k]
CapBad(cap, d) == \/ cap.k = "num" /\ cap.v < 1
                  \/ cap.k = "vec" /\ (Len(cap.v) # d + 1 \/ \E i \in DOMAIN cap.v : cap.v[i] < 1)

\* N x M matrix with row modes rows and column modes cols -> tensor with the
\* combined modes rows[k]*cols[k], flattened
Modes(rows, cols) == Tab(Len(rows), LAMBDA k : rows[k] * cols[k])
Weave(v, rows, cols) ==
  IF \A k \in DOMAIN cols : cols[k] = 1 THEN v
  ELSE LET p == Modes(rows, cols)
           M == ProdSeq(cols)
       IN Tab(ProdSeq(p), LAMBDA q :
            LET g == Digits(q - 1, p)
                I == Undigits(Tab(Len(p), LAMBDA k : g[k] \div cols[k]), rows)
                J == Undigits(Tab(Len(p), LAMBDA k : g[k] % cols[k]), cols)
            IN v[I * M + J + 1])
LeftSize(rows, cols, k) == ProdSeq(SubSeq(Modes(rows, cols), 1, k))
RightSize(rows, cols, k) == ProdSeq(SubSeq(Modes(rows, cols), k + 1, Len(rows)))
\* rank of the k-th unfolding, k in 1..d-1
UnfRank(v, rows, cols, k) ==
  Rank(Weave(v, rows, cols), LeftSize(rows, cols, k), RightSize(rows, cols, k))

\* upper bounds of the ranks of a result with the given caps
RankBound(rows, cols, cap, rk) ==
  LET d == Len(rows)
  IN Tab(d + 1, LAMBDA k :
       IF k = 1 \/ k = d + 1 THEN 1
       ELSE MinI(MinI(CapAt(cap, k), rk[k]),
                 MinI(LeftSize(rows, cols, k - 1), RightSize(rows, cols, k - 1))))
\* no bond loses anything.  A bond whose cap is at least its trivial bound
\* needs no computation.
Lossless(vals, rows, cols, cap, rk) ==
  \A k \in 2..Len(rows) :
     LET triv == MinI(rk[k], MinI(LeftSize(rows, cols, k - 1), RightSize(rows, cols, k - 1)))
     IN \/ CapAt(cap, k) >= triv
        \/ \A b \in DOMAIN vals : CapAt(cap, k) >= UnfRank(vals[b], rows, cols, k - 1)

(***************************************************************************)
(* Approximation with known singular value decomposition: parts[b] is a    *)
(* sequence of rank-one terms (one vector per combined mode) whose vectors *)
(* are mutually orthogonal in every mode, so the terms are the singular    *)
(* terms of every unfolding; the r largest are kept.                       *)
(***************************************************************************)
Outer(us) == FoldLeft(LAMBDA acc, u :
                        Tab(Len(acc) * Len(u), LAMBDA q :
                              acc[(q - 1) \div Len(u) + 1] * u[((q - 1) % Len(u)) + 1]),
                      <<1>>, us)
TermNorm2(us) == ProdSeq(Map(us, LAMBDA u : DDot(u, u)))
KnownSvd(terms, x) ==      \* the terms describe the interleaved value x
  /\ DSum(Map(terms, LAMBDA us : Outer(us))) = x
  /\ \A i, j \in DOMAIN terms : i < j =>
       /\ TermNorm2(terms[i]) > TermNorm2(terms[j])
       /\ \A k \in DOMAIN terms[i] : DDot(terms[i][k], terms[j][k]) = 0
Truncated(terms, r) == DSum(Map(SubSeq(terms, 1, MinI(r, Len(terms))), LAMBDA us : Outer(us)))
\* back from the interleaved order
Unweave(t, rows, cols) ==
  LET N == ProdSeq(rows)
      M == ProdSeq(cols)
      p == Modes(rows, cols)
  IN Tab(N * M, LAMBDA q :
       LET gi == Digits((q - 1) \div M, rows)
           gj == Digits((q - 1) % M, cols)
       IN t[Undigits(Tab(Len(p), LAMBDA k : gi[k] * cols[k] + gj[k]), p) + 1])

ApproxOf(x, cap, c, rkmax) ==     \* x: kind, mat, dt, bs, rows, cols, rk, val, den, mag
  IF Lossless(x.val, x.rows, x.cols, cap, x.rk)
  THEN ObjD(x.kind, x.mat, x.dt, x.bs, x.rows, x.cols, rkmax, x.val, x.den, SatMul(x.mag, 2))
  ELSE IF Has(c, "parts")
  THEN LET r == MinSeq(Tab(Len(x.rows) - 1, LAMBDA k : CapAt(cap, k + 1)))
       IN IF ~Assert(\A b \in 1..x.bs : KnownSvd(c.parts[b], Weave(x.val[b], x.rows, x.cols)),
                     "known svd does not describe the operand") THEN Big
          ELSE ObjD(x.kind, x.mat, x.dt, x.bs, x.rows, x.cols, rkmax,
                    Tab(x.bs, LAMBDA b : Unweave(Truncated(c.parts[b], r), x.rows, x.cols)),
                    x.den, SatMul(x.mag, 2))
  ELSE [k |-> "approx", kind |-> x.kind, mat |-> x.mat, dt |-> x.dt, bs |-> x.bs,
        rows |-> x.rows, cols |-> x.cols, rkmax |-> rkmax, val |-> x.val, den |-> x.den,
        mag |-> x.mag, cap |-> cap]

\* a one-element vector of caps is not specified
CapFree(cap) == cap.k = "vec" /\ Len(cap.v) = 1
SemRound(x, c) ==
  IF CapFree(c.cap) THEN Free
  ELSE IF CapBad(c.cap, ND(x)) \/ c.eps < 0 THEN Err("ValueError")
  ELSE ApproxOf(x, c.cap, c, RankBound(x.rows, x.cols, c.cap, x.rk))

\* c: [mat, dt, rows, cols, v, cap, ...]: a dense tensor or matrix v
DenseArg(c) ==
  [kind |-> "tt", mat |-> c.mat, dt |-> c.dt, bs |-> 1, rows |-> c.rows, cols |-> c.cols,
   rk |-> Const(Len(c.rows) + 1, Unbounded), val |-> <<c.v>>, den |-> 1,
   mag |-> AbsMax(c.v) * 4 + 1]
SemToTT(c) ==
  IF CapFree(c.cap) THEN Free
  ELSE IF CapBad(c.cap, Len(c.rows)) \/ c.eps < 0 THEN Err("ValueError")
  ELSE LET x == DenseArg(c)
       IN ApproxOf(x, c.cap, c, RankBound(x.rows, x.cols, c.cap, x.rk))

(***************************************************************************)
(* Judging an approximation (all quantities scaled by S2^2, S2 a power of  *)
(* two with S2^2 |A|^2 <= 2^28).  The recorded squared singular values of  *)
(* the unfoldings of the operand (sv2) are certified against the exact     *)
(* norm.                                                                   *)
(***************************************************************************)
TwoTo28 == 268435456
ScaleFor(n2) == CHOOSE s \in {Pow(2, i) : i \in 0..14} :
                  /\ s * s <= TwoTo28 \div MaxI(n2, 1)
                  /\ (s = 16384 \/ 4 * s * s > TwoTo28 \div MaxI(n2, 1))
DivRound(a, b) == (a + b \div 2) \div b
CapSum(s) == FoldLeft(LAMBDA acc, x : MinI(acc, 536870912) + x, 0, s)
\* t / st rescaled to scale s (st, s powers of two)
Rescale(t, st, s) == IF st >= s THEN t \div (st \div s) ELSE t * (s \div st)

ApproxOK(A, o, S, sv2, Ssv, e) ==
  LET n2 == DDot(A, A)
      s == ScaleFor(n2)
      o2 == Map(o, LAMBDA z : IF S >= s THEN DivRound(z, S \div s)
                              ELSE MinI(MaxI(z, -20000), 20000) * (s \div S))      \* 20000 is too large anyway
      d == Len(e.rows)
      nA == n2 * s * s
      nB == CapSum(Map(o2, LAMBDA z : z * z))
      cross == Sum(Len(A), LAMBDA i : o2[i] * A[i] * s)
      tails == Sum(d - 1, LAMBDA k : SumSeq(SubSeq(sv2[k], CapAt(e.cap, k + 1) + 1, Len(sv2[k]))))
      slack == nA \div 200 + 64
  IN /\ Assert(\A k \in 1..(d - 1) : Abs(SumSeq(sv2[k]) - n2 * Ssv) <= 40 + (n2 * Ssv) \div 1000000,
               "recorded singular values do not match the operand")
     /\ n2 > 0 => /\ AbsMax(o2) <= 17000
                  /\ nB <= nA + slack
                  /\ Abs(cross - nB) <= slack
                  /\ nA - 2 * cross + nB <= Rescale(tails, Ssv, s * s) + slack + slack
     /\ n2 = 0 => \A i \in DOMAIN o : Abs(o[i]) <= 6 + S \div 8192

JudgeApprox(e, ev, dyn) ==
  IF ~ev.ok THEN <<"raised">>
  ELSE LET f == JudgeForm(e, ev.r, dyn)
       IN IF f # <<>> THEN f
          ELSE IF ev.r.bad THEN <<"value_not_finite">>
          ELSE Clause(Len(ev.r.v) = e.bs /\ \A b \in 1..e.bs : Len(ev.r.v[b]) = Len(e.val[b]), "value")
               \o Clause(\A b \in 1..e.bs : ApproxOK(e.val[b], ev.r.v[b], ev.r.S, ev.sv2[b], ev.Ssv, e),
                         "approximation")

(***************************************************************************)
(* Re-gauging: same value; orthogonal cores / equal core norms             *)
(***************************************************************************)
SemOrth(x, l2r) ==
  IF IsBatch(x) /\ ~l2r THEN Err("NotImplementedError")
  ELSE Like(x, x.rk, x.val, x.den, SatMul(x.mag, 2))
\* gr[b][k]: the Gram matrix of core k (flattened), q x q, recorded for the
\* cores that must be orthogonal, in scale S
IsIdentity(g, q, S, dt) ==
  /\ Len(g) = q * q
  /\ \A i \in 1..(q * q) :
       LET want == IF (i - 1) \div q = (i - 1) % q THEN S ELSE 0
       IN Abs(g[i] - want) <= (IF dt = "f32" THEN S \div 2048 ELSE 64)
JudgeOrth(e, ev, l2r, dyn) ==
  LET f == JudgeOutcome(e, ev, dyn)
  IN IF f # <<>> \/ e.k # "obj" THEN f
     ELSE LET d == Len(e.rows)
              ks == IF l2r THEN 1..(d - 1) ELSE 2..d
          IN Clause(~ev.gbad /\ \A b \in 1..e.bs : \A k \in ks :
                      IsIdentity(ev.gr[b][k], IF l2r THEN ev.r.ark[k + 1] ELSE ev.r.ark[k], ev.Sg, e.dt),
                    "orthogonality")

SemRenorm(x) == Like(x, x.rk, x.val, x.den, SatMul(x.mag, 2))
\* cn[b][k]: squared Frobenius norms of the new cores in scale Sn.  A core
\* that was (nearly) zero in the operand makes the norms unspecified.
JudgeRenorm(e, x, ev, dyn) ==
  LET f == JudgeOutcome(e, ev, dyn)
  IN IF f # <<>> \/ e.k # "obj" THEN f
     ELSE Clause(~ev.gbad /\ \A b \in 1..e.bs :
            \/ \E k \in 1..Len(e.rows) : ev.zc[b][k]
            \/ \A k \in 1..Len(e.rows) :
                 Abs(ev.cn[b][k] - ev.cn[b][1])
                   <= (IF e.dt = "f32" THEN 64 + ev.cn[b][1] \div 2048 ELSE 64 + ev.cn[b][1] \div 1000000),
            "equal_core_norms")
=============================================================================
