-------------------------------- MODULE Vars --------------------------------
(***************************************************************************)
(* TT variables.  The store (register StoreReg) maps full names to the     *)
(* current value and attributes of the variable; handles (kind "var") and  *)
(* prepared computations (kind "node") refer to it by name, so that every  *)
(* handle sees the last assignment.  In eager mode names are not looked    *)
(* up: every creation makes a new variable.                                *)
(***************************************************************************)
EXTENDS NN

StoreReg == 500
NoVars == [kind |-> "store", m |-> [s \in {} |-> Nil], loss |-> <<>>]
StoreOf(R) == IF StoreReg \in DOMAIN R THEN R[StoreReg] ELSE NoVars
FullName(c) == FoldLeft(LAMBDA acc, s : acc \o s \o "/", "", c.scope) \o c.name
Eager(c) == c.m = "eager"
KeyOf(c) == IF Eager(c) THEN "eager" \o ToString(c.o) ELSE FullName(c)
VarOut(key, e, st, att) == [k |-> "var", key |-> key, e |-> e, st |-> st, att |-> att]
AsOut(x) == [k |-> "obj", kind |-> x.kind, mat |-> x.mat, dt |-> x.dt, bs |-> x.bs, rows |-> x.rows,
             cols |-> x.cols, rkmax |-> x.rk, val |-> x.val, den |-> x.den, mag |-> x.mag]

SemVGet(c, R) ==
  LET st == StoreOf(R)
      key == KeyOf(c)
      have == key \in DOMAIN st.m
  IN IF c.reuse /\ ~Eager(c)
     THEN IF ~have THEN Err("ValueError")
          ELSE IF (IF c.dt = "default" THEN "f32" ELSE c.dt) # st.m[key].x.dt THEN Err("ValueError")
          ELSE VarOut(key, AsOut(st.m[key].x), st, st.m[key])
     ELSE IF c.reuse THEN Free
     ELSE IF c.a = <<>> THEN Err("ValueError")
     ELSE IF have THEN Err("ValueError")
     ELSE LET x == R[c.a[1]]
              v == [x |-> x, tr |-> c.tr, coll |-> c.coll]
          IN IF c.dt # "default" /\ c.dt # x.dt THEN Err("ValueError")
             ELSE VarOut(key, AsOut(x),
                         [st EXCEPT !.m = [s \in DOMAIN st.m \cup {key} |-> IF s = key THEN v ELSE st.m[s]],
                                    !.loss = IF c.reg = <<>> THEN st.loss ELSE Append(st.loss, [key |-> key, num |-> c.reg[1], den |-> c.reg[2]])],
                         v)
\* the shape of every core must agree
SameCores(x, y) == x.kind = y.kind /\ x.mat = y.mat /\ x.bs = y.bs /\ x.rows = y.rows /\ x.cols = y.cols /\ x.rk = y.rk
SemVAssign(c, R) ==
  LET st == StoreOf(R)
      key == R[c.a[1]].key
      old == st.m[key].x
      new == IF R[c.a[2]].kind = "var" THEN st.m[R[c.a[2]].key].x ELSE R[c.a[2]]
  IN IF old.dt # new.dt THEN Err("any")
     ELSE IF SameCores(old, new)
     THEN VarOut(key, AsOut(new), [st EXCEPT !.m[key].x = new], st.m[key])
     ELSE IF old.kind # new.kind /\ old.mat # new.mat THEN Free     \* a matrix and a batch of tensors may look alike
     ELSE Err("ValueError")
ValueOf(R, i) == IF R[i].kind \in {"var", "node"} THEN StoreOf(R).m[R[i].key].x ELSE R[i]
SemVRead(c, R) == LET x == ValueOf(R, c.a[1]) IN VarOut(R[c.a[1]].key, AsOut(x), StoreOf(R), StoreOf(R).m[R[c.a[1]].key])
SemVOp(c, R) ==
  LET x == ValueOf(R, c.a[1])
      y == ValueOf(R, c.a[2])
      e == CASE c.f = "add" -> SemLin(x, y, 1)
             [] c.f = "sub" -> SemLin(x, y, -1)
             [] c.f = "mul" -> SemMul(x, y)
             [] c.f = "norm2" -> SemNorm2(x)
             [] c.f = "inner" -> SemInner(x, y)
             \* the value in another representation
             [] c.f \in {"full", "round", "orth", "renorm"} -> AsOut(x)
             \* twice the variable projected on its own tangent space, and the
             \* Riemannian gradient of its squared norm
             [] c.f \in {"proj", "projsum", "grad"} -> IF x.kind # "tt" \/ ND(x) < 2 THEN Free ELSE SemLin(x, x, 1)
  IN IF e.k # "obj" THEN e
     ELSE SemFull([kind |-> e.kind, mat |-> e.mat, dt |-> e.dt, bs |-> e.bs, rows |-> e.rows, cols |-> e.cols,
                   val |-> e.val, den |-> e.den, mag |-> e.mag])
SemVNode(c, R) == [k |-> "node", key |-> R[c.a[1]].key]
SemVEval(c, R) == SemFull(ValueOf(R, c.a[1]))

\* what holds of the graph after every call: number of cores created, and
\* the regularization losses, computed from the current values
JudgeStore(c, st, ev) ==
  IF Eager(c) THEN <<>>
  ELSE Clause(ev.nv = FoldSet(LAMBDA s, acc : acc + Len(st.m[s].x.rows), 0, DOMAIN st.m), "number_of_variables")
       \o Clause(Len(ev.lv) = Len(st.loss), "regularization_losses")
       \o (IF Len(ev.lv) # Len(st.loss) THEN <<>>
           ELSE Clause(\A i \in DOMAIN st.loss :
                  LET x == st.m[st.loss[i].key].x
                      e == SemNorm2(x)
                      l == ev.lv[i]
                  IN \/ e.k # "num"
                     \/ SatMul(e.mag, st.loss[i].num) >= Lim
                     \/ /\ l.t = "num" /\ ~l.bad
                        /\ NearAll(l.v, l.S, DScale(st.loss[i].num, e.val), e.den * st.loss[i].den,
                                   SatMul(e.mag, st.loss[i].num), x.dt), "regularization_loss"))
JudgeVar(c, e, ev) ==
  IF ~ev.ok THEN <<"raised">>
  ELSE JudgeObj(e.e, ev.r, FALSE)
       \o (IF c.op = "v_get"
           THEN Clause(ev.tr = (IF e.att.tr THEN "all" ELSE "none"), "trainable")
                \o (IF Eager(c) THEN <<>>
                    ELSE Clause(ev.mine = e.att.coll /\ ev.glob = ~e.att.coll, "collections")
                         \o Clause(ev.vname = e.key, "variable_name"))
           ELSE <<>>)
IsV(c) == c.op \in {"v_get", "v_assign", "v_read", "v_op", "v_node", "v_eval"}
\* registers whose value may change
Aliases(c, R, e) == IF c.op = "v_assign" /\ e.k = "var"
                    THEN {i \in DOMAIN R : i # 0 /\ R[i].kind = "var" /\ R[i].key = e.key} ELSE {}
=============================================================================
