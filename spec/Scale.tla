-------------------------------- MODULE Scale -------------------------------
(***************************************************************************)
(* Binary exponents.  The cores of an object may be multiplied by powers   *)
(* of two: call new with sx[b][k], the exponent of core k of element b;    *)
(* dense operands and factors by 2^sx.                                     *)
(* A register of such an object has a field ex, the exponent of the value  *)
(* of each element: the value is val / den * 2^ex.  Every call of the      *)
(* library that is homogeneous in its operands has a result with the       *)
(* exponents Exps; the specification of the others is left open for such   *)
(* operands.  Nothing else of the specification knows about exponents: an  *)
(* observation is shifted by them before it is judged.                     *)
(***************************************************************************)
EXTENDS Vars

ExOf(x) == IF Has(x, "ex") THEN x.ex ELSE Const(x.bs, 0)
Scaled(c, R) == Has(c, "sx") \/ \E i \in DOMAIN c.a : c.a[i] \in DOMAIN R /\ Has(R[c.a[i]], "ex")
Uniform(s) == \A i \in DOMAIN s : s[i] = s[1]
ExAt(s, b) == s[IF Len(s) = 1 THEN 1 ELSE b]
ExSum(ss) == Tab(MaxSeq(Map(ss, Len)), LAMBDA b : SumSeq(Map(ss, LAMBDA s : ExAt(s, b))))
ExSame(ss) == LET s == Tab(MaxSeq(Map(ss, Len)), LAMBDA b : ExAt(ss[1], b))
              IN IF \A i \in DOMAIN ss : \A b \in DOMAIN s : ExAt(ss[i], b) = s[b] THEN s ELSE <<>>
ExTimes(n, s) == Map(s, LAMBDA z : n * z)
ExUni(s) == IF Uniform(s) THEN <<s[1]>> ELSE <<>>
ExUni2(s, t) == IF Uniform(s) /\ Uniform(t) THEN <<s[1] + t[1]>> ELSE <<>>

SameExps == {"full", "neg", "transpose", "expand", "squeeze", "round", "orth", "renorm",
             "mat_dense", "dense_mat", "inner_sparse", "t_full", "project"}
NoExps == {"bcast", "shapefn", "like"}
\* the exponent of a part of a differentiated function, of all of it (0 or 1
\* numbers; none if its parts have different ones or it may leave the range)
PartExp(p, x, R) ==
  LET z == ExOf(x)[1]
      e(i) == ExOf(R[p.a[i]])[1]
  IN CASE p.p = "inner" -> <<z + e(1)>>
       [] p.p \in {"norm2", "frob2"} -> <<2 * z>>
       [] p.p \in {"quad", "had", "gram"} -> <<2 * z + e(1)>>
       [] p.p = "cube" -> <<3 * z>>
       [] p.p = "dist" -> IF e(1) = z THEN <<2 * z>> ELSE <<>>
       [] p.p = "mm" -> <<z + e(1) + e(2)>>
       [] OTHER -> <<z>>
FnExp(c, x, R) ==
  LET q == Map(c.parts, LAMBDA p : PartExp(p, x, R))
      \* the default of the norm adds a small number under the root
      r == IF (\E i \in DOMAIN q : q[i] = <<>>) \/ (c.comb # "lin" /\ \E i \in DOMAIN q : c.parts[i].p = "frob2") THEN <<>>
           ELSE CASE c.comb = "lin" -> IF Uniform(q) THEN q[1] ELSE <<>>
                  [] c.comb = "sq" -> <<2 * q[1][1]>>
                  [] OTHER -> <<q[1][1] + q[2][1]>>
  IN IF r = <<>> THEN r ELSE IF Abs(r[1]) > (IF x.dt = "f32" THEN 60 ELSE 600) THEN <<>> ELSE r
\* the exponents of the result (one for all elements or one for each), <<>> if
\* the call is not specified for operands with these exponents
RawExps(c, R) ==
  LET E(i) == ExOf(R[c.a[i]])
      all == Tab(Len(c.a), LAMBDA i : E(i))
  IN CASE c.op = "new" -> Map(c.sx, SumSeq)
       [] c.op = "to_tt" -> <<c.sx>>
       [] c.op \in SameExps -> E(1)
       [] c.op = "cast" -> IF c.dt \in {"f32", "f64"} THEN E(1) ELSE <<>>
       [] c.op \in {"scale", "scale_batch"} -> IF Has(c, "sx") THEN Map(E(1), LAMBDA z : z + c.sx) ELSE E(1)
       [] c.op \in NoExps -> <<0>>
       [] c.op \in {"add", "sub", "add_n"} -> ExSame(all)
       [] c.op \in {"mul", "matmul", "inner", "t_inner", "bilin", "bilin2"} -> ExSum(all)
       [] c.op = "norm2" -> ExTimes(2, E(1))
       [] c.op = "norm" -> IF c.eps = 0 THEN ExTimes(2, E(1)) ELSE <<>>
       [] c.op = "concat" -> Flat(Map(c.a, LAMBDA i : ExOf(R[i])))
       [] c.op = "gram" -> ExUni2(E(1), E(1))
       [] c.op \in {"pair", "pair_proj"} -> ExUni2(E(1), E(2))
       [] c.op = "gram_mat" -> LET u == ExUni2(E(1), E(1)) IN IF u = <<>> THEN u ELSE <<u[1] + E(2)[1]>>
       [] c.op = "pair_mat" -> LET u == ExUni2(E(1), E(2)) IN IF u = <<>> THEN u ELSE <<u[1] + E(3)[1]>>
       [] c.op = "slice" -> IF R[c.a[1]].kind = "tt" \/ Uniform(E(1)) THEN <<E(1)[1]>>
                            ELSE Map(ItemIdx(Len(E(1)), c.ix[1]), LAMBDA b : E(1)[b + 1])
       [] c.op \in {"gather", "project_sum", "reduce_sum"} -> ExUni(E(1))
       [] c.op = "project_matmul" -> ExSum(<<E(1), E(3)>>)
       [] c.op = "add_proj" -> LET s == ExSame(all) IN IF s = <<>> \/ ~Uniform(s) THEN <<>> ELSE <<s[1]>>
       [] c.op \in {"kdet", "kslog"} -> ExTimes(NN(R[c.a[1]]), E(1))
       [] c.op = "kinv" -> ExTimes(-1, E(1))
       [] c.op = "kchol" -> IF \A b \in DOMAIN E(1) : E(1)[b] % 2 = 0 THEN Map(E(1), LAMBDA z : z \div 2) ELSE <<>>
       [] c.op = "reg" -> IF c.f = "l2" THEN ExTimes(2, E(1)) ELSE <<>>
       [] c.op = "grad" -> LET q == FnExp(c, R[c.a[1]], R) IN IF q = <<>> THEN q ELSE <<q[1] - E(1)[1]>>
       [] c.op = "hvp" -> LET q == FnExp(c, R[c.a[1]], R) IN IF q = <<>> THEN q ELSE <<q[1] - 2 * E(1)[1] + E(2)[1]>>
       [] OTHER -> <<>>
\* so that squares of the entries of objects do not leave the range of the type
ExLim(dt, k) == IF dt = "f32" THEN (IF k = "num" THEN 80 ELSE 36) ELSE IF k = "num" THEN 800 ELSE 400
\* the logarithm of a determinant has no such limits but loses digits
LogLim(dt) == IF dt = "f32" THEN 200 ELSE 6000
Exps(c, R, e) ==
  LET s == RawExps(c, R)
      t == IF ~Has(e, "bs") \/ s = <<>> THEN s ELSE Tab(e.bs, LAMBDA b : ExAt(s, b))
      dt == IF Has(e, "dt") THEN e.dt ELSE "f64"
  IN IF \E b \in DOMAIN t : Abs(t[b]) > (IF c.op = "kslog" THEN LogLim(dt) ELSE ExLim(dt, e.k)) THEN <<>>
     ELSE t

(***************************************************************************)
(* Observations.  In programs with exponents the recorder scales the       *)
(* elements (of objects) or the slices along the first axis (of arrays)    *)
(* separately: block b is recorded as round(x * 2^kx[b]) with integers of  *)
(* about 27 bits.  In the units of the specification that is the scale     *)
(* 2^(kx[b] + ex[b]).                                                      *)
(***************************************************************************)
\* z * 2^-n rounded
ShiftDown(z, n) == IF n <= 0 THEN z ELSE IF n > 29 THEN 0 ELSE DivRound(z, Pow(2, n))
Normal(kx, v, ex) ==      \* common scale S and values, S = 0: too large
  LET lg == Tab(Len(kx), LAMBDA b : IF AbsMax(v[b]) = 0 THEN 27 ELSE kx[b] + ExAt(ex, b))
      k == MinI(27, MinSeq(lg))
  IN IF k < 0 THEN [S |-> 0, v |-> <<>>]
     ELSE [S |-> Pow(2, k), v |-> Tab(Len(kx), LAMBDA b : Map(v[b], LAMBDA z : ShiftDown(z, lg[b] - k)))]
Blocks(v, n) == LET m == Len(v) \div n IN Tab(n, LAMBDA b : SubSeq(v, (b - 1) * m + 1, b * m))
NormalR(r, ex) ==
  IF ~Has(r, "kx") \/ r.bad THEN r
  ELSE LET n == Len(r.kx)
           w == IF n = 0 THEN [S |-> 1, v |-> <<>>]
                ELSE IF r.t = "num" THEN Normal(r.kx, Blocks(r.v, n), ex)
                ELSE Normal(r.kx, r.v, ex)
       IN IF w.S = 0 THEN [r EXCEPT !.bad = TRUE]
          ELSE [r EXCEPT !.S = w.S, !.v = IF r.t = "num" THEN Flat(w.v) ELSE w.v]
\* singular values of the operand of a decomposition
NormalSv(ev, ex) ==
  IF ~Has(ev, "svk") \/ ev.sv2 = <<>> THEN ev
  ELSE LET n == Len(ev.sv2)
           flat == Tab(n, LAMBDA b : Flat(ev.sv2[b]))
           w == Normal(ev.svk, flat, ExTimes(2, ex))
           from(b, k) == SumSeq(Map(SubSeq(ev.sv2[b], 1, k - 1), Len))
       IN IF w.S = 0 THEN ev
          ELSE [ev EXCEPT !.Ssv = w.S,
                          !.sv2 = Tab(n, LAMBDA b : Tab(Len(ev.sv2[b]), LAMBDA k :
                                    SubSeq(w.v[b], from(b, k) + 1, from(b, k) + Len(ev.sv2[b][k]))))]
NormalEv(e, ev) ==
  IF ~ev.ok THEN ev
  ELSE LET ex == IF Has(e, "ex") THEN e.ex ELSE <<0>>
           ok == Len(ex) = 1 \/ ~Has(ev.r, "kx") \/ Len(ev.r.kx) = Len(ex)
       IN IF ~ok THEN (IF Has(ev.r, "kx") THEN NormalSv([ev EXCEPT !.r = NormalR(ev.r, <<0>>)], ex) ELSE ev)
          ELSE NormalSv([ev EXCEPT !.r = NormalR(ev.r, ex)], ex)
=============================================================================
