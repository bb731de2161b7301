------------------------------ MODULE MC_Diff -------------------------------
(***************************************************************************)
(* Derivatives of call sequences with respect to cores, as specified by    *)
(* the five-point formula in SemDiff, are derivatives: they are linear in  *)
(* the direction, equal to substitution of the direction for the core      *)
(* where the sequence is linear in it, satisfy Euler's identity where it   *)
(* is homogeneous, and the rules for sums and products.                    *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Keys, Shapes
VARIABLES key, sh, f
vars == <<key, sh, f>>

\* raw shapes and ranks: tensors, matrices and batches
Form(i) == CASE i = 1 -> [kind |-> "tt", mat |-> FALSE, bs |-> 1, rows |-> <<2, 2>>, cols |-> <<1, 1>>, rk |-> <<1, 2, 1>>]
             [] i = 2 -> [kind |-> "tt", mat |-> FALSE, bs |-> 1, rows |-> <<2, 1, 2>>, cols |-> <<1, 1, 1>>, rk |-> <<1, 2, 1, 1>>]
             [] i = 3 -> [kind |-> "tt", mat |-> TRUE, bs |-> 1, rows |-> <<2, 1>>, cols |-> <<1, 2>>, rk |-> <<1, 2, 1>>]
             [] i = 4 -> [kind |-> "batch", mat |-> FALSE, bs |-> 2, rows |-> <<2, 2>>, cols |-> <<1, 1>>, rk |-> <<1, 1, 1>>]
             [] OTHER -> [kind |-> "batch", mat |-> TRUE, bs |-> 2, rows |-> <<2>>, cols |-> <<2>>, rk |-> <<1, 1>>]
Fm == Form(sh)
nd == Len(Fm.rows)
Ents(j) == Tab(Fm.bs, LAMBDA b : Tab(nd, LAMBDA k :
             Tab(Fm.rk[k] * Fm.rows[k] * Fm.cols[k] * Fm.rk[k + 1], LAMBDA q : InR(Key(key, j, 10 * b + k), q, -2, 2))))
NewOf(o, e) == [op |-> "new", o |-> o, a |-> <<>>, dt |-> "f64", e |-> e] @@ Fm
C1(op, o, i) == [op |-> op, o |-> o, a |-> <<i>>]
C2(op, o, i, j) == [op |-> op, o |-> o, a |-> <<i, j>>]
N2(i) == C1("norm2", 0, i) @@ [diff |-> TRUE]
All == [k |-> "s", lo |-> None, hi |-> None, st |-> None]
\* sequences on x (register 1) and y (register 2)
Tails == [ full |-> <<C1("full", 0, 1)>>,
           inner |-> <<C2("inner", 0, 1, 2)>>,
           norm2 |-> <<N2(1)>>,
           square |-> <<C2("mul", 3, 1, 1), C1("full", 0, 3)>>,
           mixed |-> <<C2("mul", 3, 1, 2), C1("neg", 4, 3), C2("inner", 0, 4, 1)>>,
           sum |-> <<C2("add", 3, 1, 2), N2(3)>>,
           trip |-> <<C2("mul", 3, 1, 1), C2("mul", 4, 3, 1), C1("full", 0, 4)>>,
           four |-> <<C2("mul", 3, 1, 1), N2(3)>>,
           trans |-> <<C1("transpose", 3, 1), C2("matmul", 4, 1, 3), C1("full", 0, 4)>> ]
Homogeneous == DOMAIN Tails \ {"sum"}
Prg(g, e) == <<NewOf(1, e), NewOf(2, Ents(2))>> \o Tails[g]
Len0(g) == LET o == Outcome(Prg(g, Ents(1))) IN IF o.k = "num" THEN Len(o.val) ELSE 0
W(g) == Tab(Len0(g), LAMBDA i : InR(Key(key, 7, 1), i, -2, 2))
D(g, dir) == SemDiff([op |-> "diff", seq |-> Prg(g, Ents(1)), x |-> 1, arg |-> 0, w |-> W(g), D |-> dir])
Valid(g) == Outcome(Prg(g, Ents(1))).k = "num"
Value(g, e) == LET o == Outcome(Prg(g, e)) IN Sum(Len(o.val), LAMBDA i : W(g)[i] * o.val[i])
Plus(p, q) == Tab(Fm.bs, LAMBDA b : Tab(nd, LAMBDA k : Tab(Len(p[b][k]), LAMBDA i : p[b][k][i] + q[b][k][i])))
Subst(e, k, dir) == Tab(Fm.bs, LAMBDA b : [e[b] EXCEPT ![k] = dir[b][k]])

Init == key \in 1..Keys /\ sh \in 1..Shapes /\ f \in DOMAIN Tails
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Linear == Valid(f) =>
  LET p == D(f, Ents(3))
      q == D(f, Ents(4))
      s == D(f, Plus(Ents(3), Ents(4)))
  IN p.k = "num" /\ q.k = "num" /\ s.k = "num" => \A k \in 1..nd : s.val[k] = p.val[k] + q.val[k]
Euler == (Valid(f) /\ f \in Homogeneous) =>
  LET p == D(f, Ents(1)) IN p.k = "num" => \A k \in 1..nd : p.val[k] = Degree(Prg(f, Ents(1)), 1) * Value(f, Ents(1))
Substitution == (Valid(f) /\ f \in {"full", "inner"}) =>
  LET p == D(f, Ents(3)) IN p.k = "num" => \A k \in 1..nd : p.val[k] = Value(f, Subst(Ents(1), k, Ents(3)))
\* |x|^2' = 2 <x, x'>, (x + y)^2 = x^2 + 2 xy + y^2
Products == Valid(f) =>
  /\ f = "norm2" => LET p == D(f, Ents(3))
                        dir(k) == Outcome(<<NewOf(1, Ents(1)), NewOf(2, Subst(Ents(1), k, Ents(3))), C2("inner", 0, 1, 2)>>)
                    IN p.k = "num" => \A k \in 1..nd : p.val[k] = 2 * Sum(Len(W(f)), LAMBDA i : W(f)[i] * dir(k).val[i])
  /\ f = "sum" => LET p == D(f, Ents(3))
                      a == SemDiff([op |-> "diff", seq |-> Prg("norm2", Ents(1)), x |-> 1, arg |-> 0, w |-> W(f), D |-> Ents(3)])
                      b == SemDiff([op |-> "diff", seq |-> Prg("inner", Ents(1)), x |-> 1, arg |-> 0, w |-> W(f), D |-> Ents(3)])
                  IN p.k = "num" /\ a.k = "num" /\ b.k = "num" => \A k \in 1..nd : p.val[k] = a.val[k] + 2 * b.val[k]
\* the derivative by a factor: (c x)' = x, |c x|^2' = 2 c |x|^2
Sc == C1("scale", 3, 1) @@ [num |-> 3, den |-> 2]
ByFactor ==
  LET e == Outcome(<<NewOf(1, Ents(1)), C1("full", 0, 1)>>)
      n2 == Outcome(<<NewOf(1, Ents(1)), N2(1)>>)
      w1 == Const(Len(e.val), 1)
      w2 == Const(Len(n2.val), 1)
      p == SemDiff([op |-> "diff", seq |-> <<NewOf(1, Ents(1)), Sc, C1("full", 0, 3)>>, x |-> 1, arg |-> 2, w |-> w1, D |-> <<5>>])
      q == SemDiff([op |-> "diff", seq |-> <<NewOf(1, Ents(1)), Sc, N2(3)>>, x |-> 1, arg |-> 2, w |-> w2, D |-> <<5>>])
  IN /\ p.k = "num" => p.val[1] = 5 * p.den * SumSeq(e.val)
     /\ q.k = "num" => 2 * q.val[1] = 5 * 2 * 3 * q.den * SumSeq(n2.val)
\* nothing is vacuous
Some == Valid(f) \/ f \in {"trans", "inner", "mixed"} \/ sh \in 3..5
Judged == (f \in {"full", "norm2", "square"} /\ sh <= 2) => D(f, Ents(3)).k = "num"
=============================================================================
