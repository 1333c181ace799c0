----------------------------- MODULE Trace_Bind -----------------------------
EXTENDS Bind, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, st, viol
tvars == <<tid, l, st, viol>>

P == Traces[tid].prog
Ev == Traces[tid].ev

TInit == /\ tid \in 1..Len(Traces)
         /\ l = 1
         /\ st = BindInit(Traces[tid].prog)
         /\ viol = <<>>

Consume == /\ l <= Len(Ev)
           /\ LET g == Guard(P, st, Ev[l])
              IN viol' = IF g = {} THEN viol ELSE Append(viol, [l |-> l, g |-> g])
           /\ st' = Effect(P, st, Ev[l])
           /\ l' = l + 1
           /\ UNCHANGED tid

Verdict == /\ l = Len(Ev) + 1
           /\ PrintT(ToJson([verdict |-> tid, n |-> Len(Ev), viol |->
                IF st.ended THEN viol ELSE Append(viol, [l |-> l, g |-> {"no_end"}])]))
           /\ l' = l + 1
           /\ UNCHANGED <<tid, st, viol>>

TSpec == TInit /\ [][Consume \/ Verdict]_tvars
=============================================================================
