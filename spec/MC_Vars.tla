------------------------------ MODULE MC_Vars -------------------------------
(***************************************************************************)
(* All short histories of variable calls, with an ideal implementation,    *)
(* against independent bookkeeping: hist is the sequence of accepted calls *)
(* and the value of a name is what the last creation or assignment gave.   *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS Depth, EagerToo
VARIABLES R, n, hist, last
vars == <<R, n, hist, last>>

Val(v, rk) == [kind |-> "tt", mat |-> FALSE, dt |-> "f64", bs |-> 1, rows |-> <<2, 2>>, cols |-> <<1, 1>>,
               rk |-> <<1, rk, 1>>, val |-> <<<<v, 0, 1, v>>>>, den |-> 1, mag |-> 9, cores |-> <<>>]
Regs0 == [i \in 0..3 |-> IF i = 0 THEN Nil ELSE Val(i, IF i = 3 THEN 1 ELSE 2)]
Names == {"a", "b"}
Fresh == 10 + n
Handles == {i \in DOMAIN R \ {0, StoreReg} : R[i].kind = "var"}
Nodes == {i \in DOMAIN R \ {0, StoreReg} : R[i].kind = "node"}
Get(nm, sc, v, re, rg, md) == [op |-> "v_get", name |-> nm, scope |-> sc, a |-> IF v = 0 THEN <<>> ELSE <<v>>, reuse |-> re, reg |-> rg,
                               tr |-> TRUE, coll |-> FALSE, dt |-> "f64", o |-> Fresh, m |-> md]
Calls ==
  {Get(nm, sc, v, re, rg, "v1") : nm \in Names, sc \in {<<>>, <<"s">>}, v \in {0, 1, 2}, re \in BOOLEAN, rg \in {<<>>, <<2, 1>>}}
  \cup (IF EagerToo THEN {Get("a", <<>>, v, FALSE, <<>>, "eager") : v \in {1, 2}} ELSE {})
  \cup {[op |-> "v_assign", a |-> <<h, v>>, o |-> Fresh, m |-> "v1"] : h \in Handles, v \in {1, 2, 3} \cup Handles}
  \cup {[op |-> "v_node", a |-> <<h>>, o |-> Fresh, m |-> "v1"] : h \in Handles}
Ideal(e) == [ok |-> e.k # "err", r |-> [ark |-> <<>>]]
Init == R = Regs0 /\ n = 0 /\ hist = <<>> /\ last = "start"
Next ==
  /\ n < Depth
  /\ n' = n + 1
  /\ \E c \in Calls :
       LET e == Expect(c, R)
       IN /\ e.k # "free"
          /\ R' = After(c, R, e, Ideal(e))
          /\ last' = e.k
          /\ hist' = IF e.k # "var" THEN hist
                     ELSE IF c.op = "v_get" /\ ~c.reuse THEN Append(hist, [key |-> e.key, v |-> R[c.a[1]], new |-> TRUE, reg |-> c.reg])
                     ELSE IF c.op = "v_assign" THEN Append(hist, [key |-> e.key, v |-> ValueOf(R, c.a[2]), new |-> FALSE, reg |-> <<>>])
                     ELSE hist
Spec == Init /\ [][Next]_vars

St == StoreOf(R)
Events(key) == {i \in DOMAIN hist : hist[i].key = key}
Current(key) == hist[CHOOSE i \in Events(key) : \A j \in Events(key) : j <= i].v
KeysAre == DOMAIN St.m = {hist[i].key : i \in DOMAIN hist}
CreatedOnce == \A k \in DOMAIN St.m : Cardinality({i \in Events(k) : hist[i].new}) = 1
Coherent == \A h \in Handles \cup Nodes : R[h].key \in DOMAIN St.m /\ ValueOf(R, h) = Current(R[h].key)
LossesAre == St.loss = Map(SelectSeq(hist, LAMBDA z : z.new /\ z.reg # <<>>),
                           LAMBDA z : [key |-> z.key, num |-> z.reg[1], den |-> z.reg[2]])
FormFixed == \A k \in DOMAIN St.m : \A i \in Events(k) : SameCores(hist[i].v, St.m[k].x) /\ hist[i].v.dt = St.m[k].x.dt
Rejected == [][last' = "err" => R' = R /\ hist' = hist]_vars
Keeps == [][\A k \in DOMAIN StoreOf(R).m : k \in DOMAIN StoreOf(R').m]_vars
ValuesStay == [][\A i \in 1..3 : R'[i] = R[i]]_vars
=============================================================================
