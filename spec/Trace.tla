------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: every recorded trace must be a behaviour of the       *)
(* register machine.  One initial state per trace; each step consumes one  *)
(* event.  Clauses in Ignore belong to other properties.  The verdict is   *)
(* total: every trace ends with exactly one VERDICT line.                  *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

CONSTANTS TraceFile, Ignore

Traces == ndJsonDeserialize(TraceFile)

\* KeepGoing: violations of ignored clauses do not end the judgement
\* Always: calls all of whose clauses count
CONSTANT KeepGoing, Always

VARIABLES tid, step, regs, status,
          tally      \* how many events of which expected kind were judged
vars == <<tid, step, regs, status, tally>>

Init == /\ tid \in 1..Len(Traces)
        /\ step = 0
        /\ regs = [i \in {0} |-> Nil]
        /\ status = "run"
        /\ tally = [obj |-> 0, num |-> 0, err |-> 0, approx |-> 0, form |-> 0, svd |-> 0, tan |-> 0, ratio |-> 0, mom |-> 0, layer |-> 0, var |-> 0, other |-> 0]

Kind(e, c) == IF Has(c, "parts") /\ e.k = "obj" THEN "svd"
              ELSE IF e.k \in {"obj", "num", "err", "approx", "form", "tan", "ratio", "mom", "layer", "var"} THEN e.k ELSE IF e.k = "tannum" THEN "num" ELSE "other"
Relevant(c, cl) == IF c.op \in Always THEN cl ELSE SelectSeq(cl, LAMBDA z : z \notin Ignore)

\* the state after the event is determined although clauses were violated
Continues(e, ev) == e.k \in {"obj", "form", "tan", "ratio"} => ev.ok /\ ev.r.t \in {"tt", "batch"}

Next ==
  /\ status = "run"
  /\ tid' = tid
  /\ step' = step + 1
  /\ LET t == Traces[tid]
     IN IF step = Len(t.calls)
        THEN /\ status' = "ok" /\ regs' = [i \in {0} |-> Nil] /\ tally' = tally
             /\ PrintT("VERDICT " \o ToString(t.idx) \o " ok " \o ToString(step))
             /\ PrintT("TALLY " \o ToString(t.idx) \o " " \o ToString(tally))
        ELSE \E c \in {t.calls[step + 1]} :      \* evaluated once
             \E e \in {IF \E i \in DOMAIN c.a : c.a[i] \notin DOMAIN regs THEN Free ELSE Expect(c, regs)} :
             \E ev \in {NormalEv(e, t.evs[step + 1])} :
             \E j \in {JudgeCall(c, regs, e, ev)} :
                /\ tally' = [tally EXCEPT ![Kind(e, c)] = @ + 1]
                /\ IF Relevant(c, j) # <<>>
                   THEN /\ status' = "fail" /\ regs' = [i \in {0} |-> Nil]
                        /\ PrintT("VERDICT " \o ToString(t.idx) \o " fail " \o ToString(step + 1)
                                  \o " " \o c.op \o " " \o ToString(Relevant(c, j)))
                   ELSE IF j # <<>> /\ ~(KeepGoing /\ Continues(e, ev))
                   THEN \* another property is violated: the rest cannot be judged
                        /\ status' = "cut" /\ regs' = [i \in {0} |-> Nil]
                        /\ PrintT("VERDICT " \o ToString(t.idx) \o " cut " \o ToString(step + 1)
                                  \o " " \o c.op \o " " \o ToString(j))
                   ELSE /\ status' = "run"
                        /\ regs' = After(c, regs, e, ev)
Spec == Init /\ [][Next]_vars
=============================================================================
