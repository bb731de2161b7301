------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Comparing what the implementation did with what the specification       *)
(* demands.  Real numbers are recorded as fixed-point integers: x is       *)
(* recorded as round(x * S), S a power of two chosen by the recorder so    *)
(* that |x| * S <= 2^27; non-finite or too large results set the flag bad. *)
(* Every judgement is the sequence of names of the violated clauses.       *)
(***************************************************************************)
EXTENDS T3F

\* Allowed deviation in units of 1/S
Tol(S, mag, dt) ==
  LET g == MinI(mag, 100000) + 1
  IN IF dt = "f32"
     THEN 6 + (IF S >= 8192 THEN (S \div 8192) * g ELSE (g * S) \div 8192)
     ELSE 6 + (S \div 33554432) * g

\* |a - b| <= t, whatever a and b, for 0 <= t <= 2^30
Within(a, b, t) ==
  LET lo == MinI(a, b)
      hi == MaxI(a, b)
  IN IF lo >= 0 \/ hi <= 0 THEN hi - lo <= t
     ELSE hi <= t /\ lo >= -t /\ hi - lo <= t
\* |o/S - v/den| <= tol/S
Near(o, S, v, den, tol) ==
  /\ Abs(v) <= 2147000000 \div S
  /\ Abs(o) <= 2147000000 \div den
  /\ Within(v * S, o * den, tol * den)
\* tol * den may overflow for huge tolerances: clip
NearC(o, S, v, den, tol) == Near(o, S, v, den, MinI(tol, 100000000 \div den))

NearAll(o, S, v, den, mag, dt) ==
  /\ Len(o) = Len(v)
  /\ LET tol == Tol(S, mag \div den + 1, dt)
     IN \A i \in DOMAIN v : NearC(o[i], S, v[i], den, tol)

Clause(ok, name) == IF ok THEN <<>> ELSE <<name>>
Dims(o, e, dyn) == /\ Len(o) = Len(e)
                   /\ \A i \in DOMAIN e : o[i] = e[i] \/ (dyn /\ o[i] = -1)

CoreShape(r, k) ==    \* what core k of observation r must look like
  (IF r.t = "batch" THEN <<r.abs>> ELSE <<>>) \o <<r.ark[k]>> \o <<r.arows[k]>>
  \o (IF r.amat THEN <<r.acols[k]>> ELSE <<>>) \o <<r.ark[k + 1]>>

(***************************************************************************)
(* Well-formedness of an observed TT object: the a* fields are read off    *)
(* the actual cores, the others are what the object reports.               *)
(***************************************************************************)
ModProd(s, p) == FoldLeft(LAMBDA acc, z : (acc * (z % p)) % p, 1, s)
WellFormed(r, dyn) ==
  LET d == Len(r.cs)
  IN Clause(\A k \in 1..d : r.cs[k] = CoreShape(r, k), "core_shapes")
     \o Clause(r.ark[1] = 1 /\ r.ark[d + 1] = 1, "boundary_ranks")
     \o Clause(\A k \in 1..d : r.cdt[k] = r.dt, "core_dtypes")
     \o Clause(r.nd = d, "ndims")
     \o Clause(r.mat = r.amat, "is_tt_matrix")
     \o Clause(Dims(r.rk, r.ark, dyn), "reported_tt_ranks")
     \o Clause(Len(r.raw) = (IF r.amat THEN 2 ELSE 1)
               /\ Dims(r.raw[1], r.arows, dyn)
               /\ (r.amat => Dims(r.raw[2], r.acols, dyn)), "reported_raw_shape")
     \o Clause(r.t = "batch" => (r.bs = r.abs \/ (dyn /\ r.bs = -1)), "reported_batch_size")
     \* the dense shape of a very large object is recorded modulo two primes
     \o IF Has(r, "long") THEN
          LET md(p) == (IF r.t = "batch" THEN <<r.abs % p>> ELSE <<>>)
                       \o (IF r.amat THEN <<ModProd(r.arows, p), ModProd(r.acols, p)>> ELSE Map(r.arows, LAMBDA n : n % p))
          IN Clause(r.shape = md(P1) \o md(P2), "reported_shape")
        ELSE Clause(Dims(r.shape,
                    (IF r.t = "batch" THEN <<r.abs>> ELSE <<>>)
                    \o (IF r.amat THEN <<ProdSeq(r.arows), ProdSeq(r.acols)>> ELSE r.arows),
                    dyn), "reported_shape")

JudgeForm(e, r, dyn) ==
  IF r.t \notin {"tt", "batch"} THEN <<"kind">>
  ELSE Clause(r.t = e.kind, "kind")
       \o Clause(r.amat = e.mat, "matrix_or_tensor")
       \o Clause(r.dt = e.dt, "dtype")
       \o Clause(r.arows = e.rows /\ (e.mat => r.acols = e.cols), "raw_shape")
       \o Clause(r.t = "tt" \/ r.abs = e.bs, "batch_size")
       \o Clause(e.rkmax = <<>> \/ (Len(r.ark) = Len(e.rkmax)
                  /\ \A k \in DOMAIN e.rkmax : r.ark[k] <= e.rkmax[k]), "rank_bound")
       \o WellFormed(r, dyn)

JudgeObj(e, r, dyn) ==
  LET f == JudgeForm(e, r, dyn)
  IN IF f # <<>> THEN f
     ELSE IF r.bad THEN <<"value_not_finite">>
     ELSE Clause(Len(r.v) = e.bs /\ \A b \in 1..e.bs : NearAll(r.v[b], r.S, e.val[b], e.den, e.mag, e.dt),
                 "value")

JudgeNum(e, r) ==
  IF r.t # "num" THEN <<"kind">>
  ELSE Clause(r.shp = e.shp, "result_shape")
       \o Clause(e.dt = "int" \/ r.dt = e.dt, "dtype")
       \o (IF r.bad THEN <<"value_not_finite">>
           ELSE Clause(NearAll(r.v, r.S, e.val, e.den, e.mag, e.dt), "value"))

\* the outcome as a whole; ev.ok: returned normally, ev.err: exception name
JudgeOutcome(e, ev, dyn) ==
  CASE e.k \in {"free", "big"} -> <<>>
    [] e.k = "err" -> IF ev.ok THEN <<"not_rejected">>
                      ELSE Clause(e.err = "any" \/ ev.err = e.err, "error_type")
    [] e.k = "obj" -> IF ~ev.ok THEN <<"raised">> ELSE JudgeObj(e, ev.r, dyn)
    [] e.k = "num" -> IF ~ev.ok THEN <<"raised">> ELSE JudgeNum(e, ev.r)
    [] e.k = "none" -> IF ~ev.ok THEN <<"raised">> ELSE Clause(ev.r.t = "none", "kind")

\* the abstract object a register holds after an accepted event
Settle(e, ev, cores) ==
  [kind |-> e.kind, mat |-> e.mat, dt |-> e.dt, bs |-> e.bs, rows |-> e.rows,
   cols |-> e.cols, rk |-> ev.r.ark, val |-> e.val, den |-> e.den, mag |-> e.mag,
   cores |-> cores]
=============================================================================
