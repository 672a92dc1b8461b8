------------------------------ MODULE PushTrace ------------------------------
(* Judges additions of responses and components: each line of the trace is a   *)
(* sequence of batches, with what was known after each of them.                *)
EXTENDS Push, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, i, rets, comps
vars == <<l, i, rets, comps>>

NR == Len(Trace[l].rets)
NC == Len(Trace[l].comps)
Obs == Trace[l].obs

Reject(what, why) == PrintT("REJECT " \o ToJson([id |-> Trace[l].id, what |-> what, why |-> ToString(why)]))
Check(what, want, got, k) == IF k <= Len(got) /\ got[k] = want THEN TRUE ELSE Reject(what, <<"addition", k, "expected", want, "observed", got>>)

Init == l = 1 /\ i = 1 /\ rets = <<>> /\ comps = <<>>

Responses == /\ l <= Len(Trace) /\ i <= NR
             /\ rets' = AddResponses(rets, Trace[l].rets[i])
             /\ Check("responses", rets', Obs.rets, i)
             /\ i' = i + 1 /\ UNCHANGED <<l, comps>>
Components == /\ l <= Len(Trace) /\ i > NR /\ i <= NR + NC
              /\ comps' = AddComponents(comps, Trace[l].comps[i - NR])
              /\ Check("components", comps', Obs.comps, i - NR)
              /\ i' = i + 1 /\ UNCHANGED <<l, rets>>
End == /\ l <= Len(Trace) /\ i = NR + NC + 1
       /\ IF Obs.err = "" THEN TRUE ELSE Reject("error", Obs.err)
       /\ l' = l + 1 /\ i' = 1 /\ rets' = <<>> /\ comps' = <<>>

Next == Responses \/ Components \/ End
Consumed == IF l = Len(Trace) + 1 THEN PrintT("CONSUMED " \o ToString(Len(Trace))) ELSE TRUE
=============================================================================
