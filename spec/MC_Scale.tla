------------------------------ MODULE MC_Scale ------------------------------
(***************************************************************************)
(* The calculus of binary exponents: whenever Exps gives exponents, the    *)
(* call on operands that really are multiplied by the powers of two has    *)
(* the result multiplied by the power of two of the result.  Checked for   *)
(* all calls on all reachable register files of the machine, with the same *)
(* and with different exponents of the registers and of batch elements.    *)
(***************************************************************************)
EXTENDS MC_Machine
Sx(v, i, b) == CASE v = 1 -> 1 [] v = 2 -> i % 2 [] v = 3 -> b - 1 [] v = 4 -> (i + b) % 3
Marked(v) == [i \in DOMAIN R |-> IF i = 0 THEN R[i] ELSE R[i] @@ [ex |-> Tab(R[i].bs, LAMBDA b : Sx(v, i, b))]]
Up(v) == [i \in DOMAIN R |-> IF i = 0 THEN R[i]
            ELSE [R[i] EXCEPT !.val = Tab(R[i].bs, LAMBDA b : DScale(Pow(2, Sx(v, i, b)), R[i].val[b])),
                              !.cores = <<>>, !.mag = 4 * R[i].mag]]
More ==
  LET I == DOMAIN R \ {0}
      one(o) == {Call(o, <<i>>) : i \in I}
      two(o) == {Call(o, <<i, j>>) : i \in I, j \in I}
  IN one("full") \cup one("norm2") \cup two("inner") \cup one("gram") \cup two("pair")
     \cup {Call("bilin", <<i, j, k>>) : i \in I, j \in I, k \in I}
     \cup {Call("scale_batch", <<i>>) @@ [w |-> <<2, 3>>, wden |-> 1] : i \in I}
     \cup {Call("reduce_sum", <<i>>) @@ [cap |-> 40, cf |-> [k |-> "none"]] : i \in I}
     \cup {Call("reg", <<i>>) @@ [f |-> "l2", num |-> 3, den |-> 2, st |-> "float"] : i \in I}
     \cup {Call("kdet", <<i>>) : i \in {i \in I : R[i].mat}}
     \cup {Call("gather", <<i>>) @@ [ish |-> <<2, 2>>, ix |-> <<0, 1, 1, 2>>] : i \in {i \in I : R[i].kind = "tt" /\ ~R[i].mat /\ R[i].rows = <<2, 3>>}}
Law(c, v) ==
  LET e == Expect(c, Marked(v))
      u == Expect0(c, Up(v))
      len == IF e.k = "obj" THEN e.bs ELSE IF e.shp = <<>> THEN 1 ELSE e.shp[1]
      of(w) == IF e.k = "obj" THEN w.val ELSE Blocks(w.val, len)
  IN e.k \in {"obj", "num"} =>
       /\ u.k = e.k \/ u.k \in {"big", "free"}
       /\ u.k = e.k =>
            \A b \in 1..len : LET p == Pow(2, ExAt(e.ex, b))
                            IN DScale(e.den, of(u)[b]) = DScale(p * u.den, of(e)[b])
Judged == Calls \cup More
Homogeneous == \A c \in Judged : \A v \in 1..4 : Law(c, v)
\* the law is not empty
Some == n = 0 => \A v \in 1..4 : \E c \in Judged : LET e == Expect(c, Marked(v)) IN e.k = "obj" /\ \E b \in DOMAIN e.ex : e.ex[b] > 1
=============================================================================
