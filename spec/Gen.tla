-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Generation of programs: behaviours of the register machine chosen by a  *)
(* deterministic function of (Seed, property, index).  Every finished      *)
(* program is written to OutDir/<index>.json.                              *)
(***************************************************************************)
EXTENDS GenProps, Json, IOUtils


(***************************************************************************)
(* One program in five has cores multiplied by powers of two; all objects  *)
(* of a program have the same exponents, element by element, which are     *)
(* spread over the cores in different ways.                                *)
(***************************************************************************)
Unscaled == {"C02", "C19", "C20", "C21", "C24", "C27", "C28"}
\* single precision QR of columns around 1e-20 (rounding errors of rounding
\* errors of small objects) is inaccurate in TensorFlow itself
NoQR == {"C01", "C03", "C04", "C06", "C07", "C08", "C09", "C18"}
Tiny(dt) == dt = "f64" \/ Prop \in NoQR
WithScale(K, s, c, R) ==
  IF Prop \in Unscaled \/ c.op \notin {"new", "to_tt", "scale", "scale_batch"} \/ ~Chance(K, 9100, 1, 5) THEN c
  ELSE IF c.op \in {"scale", "scale_batch"}
  THEN IF Has(c, "m") \/ (c.op = "scale" /\ c.st \in {"int", "npint"}) THEN c
       ELSE c @@ [sx |-> Among(K, 9150 + s, IF Tiny(R[c.a[1]].dt) THEN <<0, 0, -12, -20, 10>> ELSE <<0, 0, 4, 10>>)]
  ELSE IF c.dt \notin {"f32", "f64"} \/ Has(c, "m") THEN c
  ELSE LET pool == IF Prop = "C18" /\ Chance(K, 9104, 1, 2) THEN (IF c.dt = "f32" THEN <<-36, 34, -34>> ELSE <<-300, 280, -320>>)
                   ELSE IF ~Tiny(c.dt) THEN <<20, 12, 8, 16, 0>> ELSE IF c.dt = "f32" THEN <<-20, -12, 12, 20, 0>> ELSE <<-60, -40, -30, -24, -20, 16, 24, 40, 0>>
           one == Among(K, 9101, pool)
           mixed == Chance(K, 9102, 1, 2)
           of(b) == IF mixed /\ b > 1 THEN Among(K, 9102 + b, pool) ELSE one
           Ks == Sub(K, 9200 + s)
           d == Len(c.rows)
           k == InR(Ks, 1, 1, d)
           l == InR(Ks, 2, 1, d)
           far == Among(Ks, 3, IF Prop = "C18" /\ Chance(K, 9104, 1, 2) THEN <<0>> ELSE IF c.dt = "f32" THEN <<0, 0, 8, -8>> ELSE <<0, 0, 25, -25, 12>>)
       IN IF c.op = "to_tt" THEN c @@ [sx |-> one]
          ELSE c @@ [sx |-> Tab(c.bs, LAMBDA b : Tab(d, LAMBDA i :
                              (IF i = k THEN of(b) + far ELSE 0) - (IF i = l THEN far ELSE 0)))]

-----------------------------------------------------------------------------
VARIABLES idx, step, regs, prog, done
vars == <<idx, step, regs, prog, done>>

\* a tangent vector is guessed to be what is projected
GuessTan(e) ==
  [kind |-> e.kind, mat |-> e.mat, dt |-> e.dt, bs |-> e.bs, rows |-> e.rows,
   cols |-> e.cols, rk |-> e.rkmax, val |-> <<>>, den |-> 1, mag |-> Lim, cores |-> <<>>,
   tan |-> [pt |-> e.pt, z |-> e.z, S |-> 4096,
            o |-> Map(e.z, LAMBDA f : AtScale(f, 4096))]]

Init == /\ idx \in Lo..Hi
        /\ step = 0
        /\ regs = [i \in {0} |-> Nil]
        /\ prog = <<>>
        /\ done = FALSE

Next ==
  /\ ~done
  /\ idx' = idx
  /\ step' = step + 1
  /\ \E c0 \in {GenCall(Key(Seed, PropNo, idx), idx, step + 1, regs)} :
     \E c \in {IF c0.op \in {"stop", "skip"} \/ \E i \in DOMAIN c0.a : ~Ok(regs, c0.a[i]) THEN c0
               ELSE WithScale(Key(Seed, PropNo, idx), step + 1, c0, regs)} :
        IF c.op = "stop"
        THEN /\ done' = TRUE /\ regs' = [i \in {0} |-> Nil] /\ prog' = <<>>
             /\ JsonSerialize(OutDir \o "/" \o ToString(idx) \o ".json",
                              [idx |-> idx, calls |-> IF Prop = "C27" THEN GDiffs(Key(Seed, PropNo, idx), prog) ELSE prog])
        ELSE \E e \in {IF c.op = "skip" \/ \E i \in DOMAIN c.a : ~Ok(regs, c.a[i]) THEN Big ELSE Expect(c, regs)} :
                /\ done' = FALSE
                /\ IF e.k \in {"big", "free"} THEN UNCHANGED <<regs, prog>>
                   ELSE /\ prog' = Append(prog, c)
                        /\ regs' = IF Unsupported(c, regs) THEN regs ELSE IF e.k = "form" THEN Drop(regs, c.o)
                                 ELSE IF e.k = "obj" THEN Put(regs, c.o, WithEx(Guess(e, KnownCores(c)), e))
                                 ELSE IF e.k = "layer" THEN Put(regs, c.o, e.L)
                                 ELSE IF e.k \in {"var", "node"} THEN After(c, regs, e, [ok |-> TRUE])
                                 ELSE IF e.k = "ratio" THEN LET x == SettleRatio(e, [r |-> [ark |-> e.rkmax]])
                                                            IN IF x = Nil THEN Drop(regs, c.o) ELSE Put(regs, c.o, WithEx(x, e))
                                 ELSE IF e.k = "tan" THEN Put(regs, c.o, WithEx(GuessTan(e), e))
                                 ELSE IF e.k = "approx" THEN Drop(regs, c.o) ELSE regs
Spec == Init /\ [][Next]_vars
=============================================================================
