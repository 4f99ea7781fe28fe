------------------------------- MODULE MCSink -------------------------------
(* All behaviours of a sink for outputs of a few chunks.                   *)
EXTENDS Sink, TLC, Json

CONSTANTS MaxSched, Dump

Outputs == { <<3>>, <<1, 2>>, <<2, 1, 3>> }     \* chunk lengths
Sum(q) == IF q = <<>> THEN 0 ELSE IF Len(q) = 1 THEN q[1] ELSE IF Len(q) = 2 THEN q[1] + q[2] ELSE q[1] + q[2] + q[3]

VARIABLES out, chunk, off, s, sched, finished
vars == <<out, chunk, off, s, sched, finished>>

Init == /\ out \in Outputs /\ chunk = 1 /\ off = 0 /\ s = Sink0 /\ sched = <<>> /\ finished = FALSE

Offered == out[chunk] - off

Step(a, n) ==
  /\ ~finished /\ ~s.failed /\ chunk <= Len(out)
  /\ Len(sched) < MaxSched
  /\ MayOffer(s, a, Offered, n, Sum(out))
  /\ s' = Answer(s, a, Offered, n)
  /\ sched' = Append(sched, [a |-> a, n |-> n])
  /\ IF a = "acc" /\ off + n = out[chunk]
     THEN chunk' = chunk + 1 /\ off' = 0
     ELSE chunk' = chunk /\ off' = IF a = "acc" THEN off + n ELSE off
  /\ UNCHANGED <<out, finished>>

Accept == \E n \in 1..3 : n <= Offered /\ Step("acc", n)
Interrupt == Step("int", 0)
Fault == \E a \in {"err", "zero", "block"} : Step(a, 0)
Finish == /\ ~finished /\ (s.failed \/ chunk > Len(out))
          /\ finished' = TRUE
          /\ UNCHANGED <<out, chunk, off, s, sched>>
Next == (chunk <= Len(out) /\ (Accept \/ Interrupt \/ Fault)) \/ Finish

Prefix == s.pos <= Sum(out)
OkMeansAll == finished => ((Result(s) = "ok") = (s.pos = Sum(out)))
Export == (Dump /\ (finished \/ Len(sched) = MaxSched)) => PrintT("C" \o ToJson(sched))
=============================================================================
