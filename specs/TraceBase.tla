------------------------------ MODULE TraceBase ------------------------------
(* Common to all trace specifications: a batch of recorded runs, each a        *)
(* sequence of events; tid is the run being explained and i the next event.     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
More == i <= Len(Traces[tid])
Ev == Traces[tid][i]
Is(e) == More /\ Ev.e = e
Consume == i' = i + 1 /\ UNCHANGED tid
Stay == UNCHANGED <<tid, i>>
(* a deviation of the code which is known; reported by name, and accepted only  *)
(* if known_findings.txt lists it (lib/runner.py)                               *)
Finding(name) == PrintT(<<"FINDING", name>>)
(* reported to the harness: which runs were explained to their last event *)
Report == /\ (i > Len(Traces[tid]) => PrintT(<<"OK", tid>>) /\ TLCSet(tid, TRUE))
(* one explanation is enough (searched depth first, see lib/tlc.py) *)
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, FALSE)
Open == ~TLCGet(tid)
Progress == /\ PrintT(<<"AT", tid, i>>) /\ Report
==============================================================================
