----------------------------- MODULE ConfigTrace -----------------------------
(* Judges configurations and output files: each line of the trace is a case -  *)
(* the calls of the configuration builder, a configuration that is used        *)
(* instead, and outputs of a service - with what the builder gave and with     *)
(* what is in the working directory in the end.                                *)
EXTENDS Config, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Prop == IOEnv.VERIF_PROP

VARIABLES l,        \* line of the trace
          i,        \* number of the call, then of the output
          builder,
          st        \* what the outputs did so far
vars == <<l, i, builder, st>>

Case == Trace[l].case
Obs == Trace[l].obs
NCalls == Len(Case.calls)
NOuts == Len(Case.outs)

Tree0(c) == [p \in {x.path : x \in ToSet(c.pre)} |-> LET x == CHOOSE x \in ToSet(c.pre) : x.path = p IN IF x.kind = "dir" THEN "dir" ELSE "old"]
Start(n) == IF n > Len(Trace) THEN [tree |-> <<>>, err |-> ""] ELSE [tree |-> Tree0(Trace[n].case), err |-> ""]

Init == l = 1 /\ i = 1 /\ builder = NewBuilder /\ st = Start(1)

Used == IF Case.raw # <<>> THEN Case.raw ELSE LastBuilt(builder)

Call == /\ l <= Len(Trace) /\ i <= NCalls
        /\ builder' = ApplyCall(builder, Case.calls[i])
        /\ i' = i + 1 /\ UNCHANGED <<l, st>>
Write == /\ l <= Len(Trace) /\ i > NCalls /\ i <= NCalls + NOuts
         /\ st' = WriteOutput(st, Used, Case.outs[i - NCalls])
         /\ i' = i + 1 /\ UNCHANGED <<l, builder>>

Reject(what, why) == PrintT("REJECT " \o ToJson([id |-> Trace[l].id, what |-> what, why |-> ToString(why)]))
Check(what, ok, why) == IF ok THEN TRUE ELSE Reject(what, why)

Builds == [k \in 1..Len(Obs.builds) |-> LET b == Obs.builds[k] IN IF b.err THEN (IF b.none /\ b.portErr THEN <<>> ELSE << "another error" >>) ELSE << b.config >>]

ObsOp(o) == [desc |-> o.desc, opid |-> o.opid, params |-> ToSet(o.params), hasbody |-> o.hasbody, body |-> o.body, responses |-> o.responses]
ObsDoc(d) == [openapi |-> d.openapi, info |-> d.info, servers |-> d.servers,
              paths |-> [p \in DOMAIN d.paths |-> [m \in DOMAIN d.paths[p] |-> ObsOp(d.paths[p][m])]], schemas |-> d.schemas]
Meta(d) == [openapi |-> d.openapi, info |-> d.info, servers |-> d.servers]

Docs == {p \in DOMAIN Obs.tree : Obs.tree[p].kind \in {"json", "yaml"}}
Debugs == {p \in DOMAIN Obs.tree : Obs.tree[p].kind = "debug"}
Kinds == [p \in DOMAIN Obs.tree |-> Obs.tree[p].kind]

JudgeFiles == /\ Check("files", Kinds = st.tree, <<"expected", st.tree, "observed", Kinds>>)
              /\ Check("files", Obs.beside = 0, "something is beside the working directory")
              /\ Check("error", (Obs.err # "") = (st.err # ""), <<"expected", st.err, "observed", Obs.err>>)

Judge ==
  LET want == Document([routes |-> Case.svc.routes, comps |-> Case.svc.comps, mapping |-> <<>>, config |-> Used[1]])
  IN  CASE Prop = "C15" ->
             /\ Check("builder", Builds = builder.built, <<"expected", builder.built, "observed", Obs.builds>>)
             /\ Check("no configuration", Obs.noConfig = (st.err = "no config"), <<"expected", st.err, "observed", Obs.err>>)
             /\ Check("no configuration", Used # <<>> \/ Docs = {}, <<"documents without a configuration", Docs>>)
             /\ \A p \in Docs : Check(p, Used # <<>> /\ Meta(Obs.tree[p].doc) = Meta(want), <<"expected", Meta(want), "observed", Meta(Obs.tree[p].doc)>>)
        [] Prop = "C16" ->
             /\ JudgeFiles
             /\ \A p \in Docs : Check(p, Used # <<>> /\ Obs.tree[p].doc.unknown = <<>> /\ ObsDoc(Obs.tree[p].doc) = want, <<"expected", want, "observed", Obs.tree[p].doc>>)
        [] Prop = "C28" ->
             /\ Check("files", {p \in DOMAIN st.tree : st.tree[p] = "debug"} = Debugs, <<"expected", st.tree, "observed", Kinds>>)
             /\ \A p \in Debugs : Check(p, Obs.tree[p].routes = Case.svc.routes /\ Obs.tree[p].comps = Case.svc.comps, <<"observed", Obs.tree[p]>>)

Compare == /\ l <= Len(Trace) /\ i = NCalls + NOuts + 1
           /\ Judge
           /\ l' = l + 1 /\ i' = 1 /\ builder' = NewBuilder /\ st' = Start(l + 1)

Next == Call \/ Write \/ Compare

Consumed == IF l = Len(Trace) + 1 THEN PrintT("CONSUMED " \o ToString(Len(Trace))) ELSE TRUE
=============================================================================
