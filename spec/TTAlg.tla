------------------------------- MODULE TTAlg --------------------------------
(***************************************************************************)
(* The algorithms on TT-cores: what a call does to one core at a time, and *)
(* the invariants that carry the meaning from core to core.  T3F gives the *)
(* meaning of the calls on dense values; the machines below (MC_Sweep)     *)
(* connect both.                                                           *)
(***************************************************************************)
EXTENDS NN

(***************************************************************************)
(* The defining sum: an element of the denoted matrix is the sum over all  *)
(* rank paths of products of core elements.                                *)
(***************************************************************************)
RECURSIVE PathSum(_, _, _, _, _)
PathSum(cs, k, a, I, J) ==      \* from core k on, entering with rank index a
  IF k > Len(cs) THEN 1
  ELSE Sum(cs[k].s, LAMBDA b : El(cs[k], a, I[k], J[k], b - 1) * PathSum(cs, k + 1, b - 1, I, J))

(***************************************************************************)
(* One core of the result                                                  *)
(***************************************************************************)
AddCore(x, y, first, last) ==
  MkCore(IF first THEN 1 ELSE x.r + y.r, x.n, x.m, IF last THEN 1 ELSE x.s + y.s,
         LAMBDA a, i, j, b :
           LET inx == (first \/ a < x.r) /\ (last \/ b < x.s)
               iny == (first \/ a >= x.r) /\ (last \/ b >= x.s)
           IN (IF inx THEN El(x, a, i, j, b) ELSE 0)
              + (IF iny THEN El(y, IF first THEN 0 ELSE a - x.r, i, j, IF last THEN 0 ELSE b - x.s) ELSE 0))
MulCore(x, y) ==
  MkCore(x.r * y.r, x.n, x.m, x.s * y.s, LAMBDA a, i, j, b :
    El(x, a \div y.r, i, j, b \div y.s) * El(y, a % y.r, i, j, b % y.s))
MatMulCore(x, y) ==
  MkCore(x.r * y.r, x.n, y.m, x.s * y.s, LAMBDA a, i, j, b :
    Sum(x.m, LAMBDA t : El(x, a \div y.r, i, t - 1, b \div y.s) * El(y, a % y.r, t - 1, j, b % y.s)))
TransCore(x) == MkCore(x.r, x.m, x.n, x.s, LAMBDA a, i, j, b : El(x, a, j, i, b))
ScaleCore(c, x) == [x EXCEPT !.e = DScale(c, x.e)]
\* rows restricted to the positions sel (0-based)
SelCore(x, sel) == MkCore(x.r, Len(sel), x.m, x.s, LAMBDA a, i, j, b : El(x, a, sel[i + 1], j, b))
\* a matrix (as a core with modes one) times a core, and back
MatCore(P, x) == MkCore(P.r, x.n, x.m, x.s, LAMBDA a, i, j, b :
                   Sum(x.r, LAMBDA t : El(P, a, 0, 0, t - 1) * El(x, t - 1, i, j, b)))
CoreMat(x, P) == MkCore(x.r, x.n, x.m, P.s, LAMBDA a, i, j, b :
                   Sum(x.s, LAMBDA t : El(x, a, i, j, t - 1) * El(P, t - 1, 0, 0, b)))
Unit1 == Core(1, 1, 1, 1, <<1>>)

(***************************************************************************)
(* Running sums: matrices over the ranks of the operands                   *)
(***************************************************************************)
InnerStep(acc, x, y) ==         \* acc: x.r x y.r, row-major
  Tab(x.s * y.s, LAMBDA q :
    LET b == (q - 1) \div y.s
        bb == (q - 1) % y.s
    IN Sum(x.r * y.r, LAMBDA z :
         LET a == (z - 1) \div y.r
             aa == (z - 1) % y.r
         IN IF acc[z] = 0 THEN 0
            ELSE acc[z] * Sum(x.n * x.m, LAMBDA w :
                   El(x, a, (w - 1) \div x.m, (w - 1) % x.m, b)
                   * El(y, aa, (w - 1) \div x.m, (w - 1) % x.m, bb))))
BilinStep(acc, u, A, v) ==      \* u' A v for column vectors u, v: acc over (u.r, A.r, v.r)
  Tab(u.s * A.s * v.s, LAMBDA q :
    LET bu == (q - 1) \div (A.s * v.s)
        ba == ((q - 1) \div v.s) % A.s
        bv == (q - 1) % v.s
    IN Sum(u.r * A.r * v.r, LAMBDA z :
         LET au == (z - 1) \div (A.r * v.r)
             aa == ((z - 1) \div v.r) % A.r
             av == (z - 1) % v.r
         IN IF acc[z] = 0 THEN 0
            ELSE acc[z] * Sum(A.n * A.m, LAMBDA w :
                   LET i == (w - 1) \div A.m
                       j == (w - 1) % A.m
                   IN El(u, au, i, 0, bu) * El(A, aa, i, j, ba) * El(v, av, j, 0, bv))))

(***************************************************************************)
(* Tangent vectors: the block cores built from left-orthogonal cores L,    *)
(* right-orthogonal cores R and deltas D.                                  *)
(***************************************************************************)
TanCore(Lc, Rc, Dc, first, last) ==
  IF first /\ last THEN Dc
  ELSE IF first THEN MkCore(1, Dc.n, Dc.m, Dc.s + Lc.s, LAMBDA a, i, j, b :
                        IF b < Dc.s THEN El(Dc, 0, i, j, b) ELSE El(Lc, 0, i, j, b - Dc.s))
  ELSE IF last THEN MkCore(Rc.r + Dc.r, Dc.n, Dc.m, 1, LAMBDA a, i, j, b :
                        IF a < Rc.r THEN El(Rc, a, i, j, 0) ELSE El(Dc, a - Rc.r, i, j, 0))
  ELSE MkCore(Rc.r + Dc.r, Dc.n, Dc.m, Rc.s + Lc.s, LAMBDA a, i, j, b :
         IF a < Rc.r THEN (IF b < Rc.s THEN El(Rc, a, i, j, b) ELSE 0)
         ELSE IF b < Rc.s THEN El(Dc, a - Rc.r, i, j, b) ELSE El(Lc, a - Rc.r, i, j, b - Rc.s))
TanTrain(L, R, D) == Tab(Len(D), LAMBDA k : TanCore(L[k], R[k], D[k], k = 1, k = Len(D)))
\* Sum_k L_1 .. L_{k-1} D_k R_{k+1} .. R_d
TanSum(L, R, D) ==
  DSum(Tab(Len(D), LAMBDA k : DenseOf(Tab(Len(D), LAMBDA t : IF t < k THEN L[t] ELSE IF t = k THEN D[k] ELSE R[t]))))
=============================================================================
