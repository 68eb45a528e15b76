------------------------------ MODULE TraceBase ------------------------------
(* Common part of the trace specifications: the recorded events and the position in them. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
More == l <= Len(Trace)
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
\* accepted iff every event was consumed (the initial state is one more)
TraceAccepted ==
  LET n == TLCGet("stats").diameter - 1
  IN /\ PrintT("TRACE-REACHED " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
     /\ n = Len(Trace)
=============================================================================
