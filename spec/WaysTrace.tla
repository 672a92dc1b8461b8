------------------------------ MODULE WaysTrace -------------------------------
(* Judges ways to document programs: each line of the trace is a history, with *)
(* what was generated in each directory after each of its operations, and with *)
(* what another process generates of each program in one go.                   *)
EXTENDS Ways, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, i, st
vars == <<l, i, st>>

Init == l = 1 /\ i = 1 /\ st = Init0
Ops == Trace[l].ops
Obs == Trace[l].obs

Reject(what, why) == PrintT("REJECT " \o ToJson([id |-> Trace[l].id, what |-> what, why |-> ToString(why)]))
Check(what, ok, why) == IF ok THEN TRUE ELSE Reject(what, why)

Expected(s, d) == IF d \in s.made THEN Obs.refs[d][s.in[d]] ELSE <<>>

Operate == /\ l <= Len(Trace) /\ i <= Len(Ops)
           /\ st' = Do(st, Ops[i])
           /\ LET o == Obs.ops[i]
              IN  /\ Check("error", (o.err # "") = (st'.err # ""), <<"operation", i, Ops[i], "expected", st'.err, "observed", o.err>>)
                  /\ \A d \in 1..2 : Check("outputs", o.sums[d] = Expected(st', d), <<"operation", i, Ops[i], "directory", d, "expected", Expected(st', d), "observed", o.sums[d]>>)
           /\ i' = i + 1 /\ UNCHANGED l

NextCase == /\ l <= Len(Trace) /\ i = Len(Ops) + 1
            /\ l' = l + 1 /\ i' = 1 /\ st' = Init0

Next == Operate \/ NextCase
Consumed == IF l = Len(Trace) + 1 THEN PrintT("CONSUMED " \o ToString(Len(Trace))) ELSE TRUE
=============================================================================
