----------------------------- MODULE CacheTrace ------------------------------
(* Judges histories of caches: each line of the trace is a sequence of         *)
(* operations, with what the service of each of them knew after it.            *)
EXTENDS Cache, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l, i, st,
          seen   \* what was generated of each original service: <<number, digests>>
vars == <<l, i, st, seen>>

Init == l = 1 /\ i = 1 /\ st = Init0 /\ seen = {}
Ops == Trace[l].ops
Obs == Trace[l].obs
More == Trace[l].more

Reject(what, why) == PrintT("REJECT " \o ToJson([id |-> Trace[l].id, what |-> what, why |-> ToString(why)]))
Check(what, ok, why) == IF ok THEN TRUE ELSE Reject(what, why)

NoSvc == [routes |-> <<>>, comps |-> <<>>, mapping |-> <<>>, config |-> NoConfig, has |-> FALSE, ins |-> <<>>, outs |-> <<>>]
Expected(n) == IF n = 0 THEN NoSvc ELSE Obs.orig[n]
Diff(a, b) == {<<f, a[f], b[f]>> : f \in {f \in DOMAIN NoSvc : a[f] # b[f]}}

\* What other processes generated counts as well.
Sums(k) == {Obs.ops[k].sums} \cup {More[m].ops[k].sums : m \in DOMAIN More}
\* What the service as it was before any history generates.
Original(n) == {Obs.sums[n]} \cup {More[m].sums[n] : m \in DOMAIN More}

Operate == /\ l <= Len(Trace) /\ i <= Len(Ops)
           /\ st' = Do(st, Ops[i])
           /\ LET o == Obs.ops[i]
                  n == IF Ops[i].i \in DOMAIN st'.svcs THEN st'.svcs[Ops[i].i].n ELSE 0
                  new == IF Ops[i].k = "gen" /\ n > 0 THEN {<<n, x>> : x \in Sums(i) \cup Original(n)} ELSE {}
              IN  /\ Check("error", (o.err # "") = (st'.err # ""), <<"operation", i, Ops[i], "expected", st'.err, "observed", o.err>>)
                  /\ Check("service", o.svc = Expected(n), <<"operation", i, Ops[i], "of", n, "differs:", Diff(Expected(n), o.svc)>>)
                  /\ Check("outputs", \A x \in new : \A y \in seen \cup new : x[1] = y[1] => x[2] = y[2], <<"operation", i, Ops[i], "other outputs for the same service", new, seen>>)
                  /\ seen' = seen \cup new
           /\ i' = i + 1 /\ UNCHANGED l

NextCase == /\ l <= Len(Trace) /\ i = Len(Ops) + 1
            /\ l' = l + 1 /\ i' = 1 /\ st' = Init0 /\ seen' = {}

Next == Operate \/ NextCase
Consumed == IF l = Len(Trace) + 1 THEN PrintT("CONSUMED " \o ToString(Len(Trace))) ELSE TRUE
=============================================================================
