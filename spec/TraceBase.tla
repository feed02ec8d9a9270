----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Reading a recorded trace.  One state per event; an event that the       *)
(* specification does not allow is printed and the trace goes on, so that  *)
(* every event is judged.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* b: the set of complaints about event l; empty if it is allowed
Judge(l, b) ==
    /\ IF b = {} THEN TRUE ELSE PrintT("REJECT|" \o Trace[l].id \o "|" \o ToString(b))
    /\ l = Len(Trace) => PrintT(<<"CHECKED", Len(Trace)>>)
=============================================================================
