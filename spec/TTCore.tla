------------------------------- MODULE TTCore -------------------------------
(***************************************************************************)
(* TT-cores and their denotation.                                          *)
(*                                                                         *)
(* A core is [r, n, m, s, e]: left rank, row mode, column mode (1 for      *)
(* TT-tensors), right rank and the elements flattened row-major over       *)
(* (r, n, m, s).  A tensor train is a sequence of cores with matching      *)
(* ranks; it denotes the (prod n) x (prod m) matrix                        *)
(*   X[(i1..id), (j1..jd)] = G1[i1,j1] G2[i2,j2] ... Gd[id,jd].            *)
(***************************************************************************)
EXTENDS Dense

Core(r, n, m, s, e) == [r |-> r, n |-> n, m |-> m, s |-> s, e |-> e]
\* element (0-based a, i, j, b)
El(c, a, i, j, b) == c.e[((a * c.n + i) * c.m + j) * c.s + b + 1]
MkCore(r, n, m, s, f(_, _, _, _)) ==
  Core(r, n, m, s,
       Tab(r * n * m * s, LAMBDA q :
             LET z == q - 1
             IN f(z \div (n * m * s), (z \div (m * s)) % n, (z \div s) % m, z % s)))

IsCore(c) == /\ c.r >= 1 /\ c.n >= 1 /\ c.m >= 1 /\ c.s >= 1
             /\ Len(c.e) = c.r * c.n * c.m * c.s
IsTrain(cs) == /\ Len(cs) >= 1
               /\ \A k \in DOMAIN cs : IsCore(cs[k])
               /\ \A k \in 1..(Len(cs) - 1) : cs[k].s = cs[k + 1].r
               /\ cs[1].r = 1 /\ cs[Len(cs)].s = 1

RowsOf(cs) == Tab(Len(cs), LAMBDA k : cs[k].n)
ColsOf(cs) == Tab(Len(cs), LAMBDA k : cs[k].m)
RanksOf(cs) == Tab(Len(cs) + 1, LAMBDA k : IF k <= Len(cs) THEN cs[k].r ELSE cs[Len(cs)].s)

(***************************************************************************)
(* Left-to-right contraction.  The partial product of the first k cores is *)
(* itself a core with r = r_0 whose modes are the flattened multi-indices. *)
(***************************************************************************)
Join(L, c) ==
  MkCore(L.r, L.n * c.n, L.m * c.m, c.s, LAMBDA a, i, j, b :
    Sum(c.r, LAMBDA t : El(L, a, i \div c.n, j \div c.m, t - 1)
                        * El(c, t - 1, i % c.n, j % c.m, b)))
Contract(cs) == FoldLeft(LAMBDA L, c : Join(L, c), cs[1], Tail(cs))
\* The denotation: flattened N x M matrix (for boundary ranks one)
DenseOf(cs) == Contract(cs).e
AbsCore(c) == [c EXCEPT !.e = Map(c.e, LAMBDA x : Abs(x))]
\* A bound on every intermediate quantity of any contraction order
\* (saturating): the largest element of the contraction of absolute values
JoinSat(L, c) ==
  MkCore(L.r, L.n * c.n, L.m * c.m, c.s, LAMBDA a, i, j, b :
    FoldSet(LAMBDA t, acc : SatAdd(acc, SatMul(Abs(El(L, a, i \div c.n, j \div c.m, t - 1)),
                                               Abs(El(c, t - 1, i % c.n, j % c.m, b)))), 0, 1..c.r))
MagOf(cs) == AbsMax(FoldLeft(LAMBDA L, c : JoinSat(L, c), AbsCore(cs[1]), Tail(cs)).e)

\* The k-th unfolding as a matrix: left partial (n1..nk) interleaved modes
\* are treated as one mode per core, q_k = i_k * m_k + j_k.
Unfold1(cs) == Tab(Len(cs), LAMBDA k : [cs[k] EXCEPT !.n = cs[k].n * cs[k].m, !.m = 1])
=============================================================================
