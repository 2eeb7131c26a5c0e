------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded traces and reporting rejected steps.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Hdr(t) == Traces[t].hdr
Ev(t)  == Traces[t].ev
\* A step that violates some clause is printed and the trace goes on from the recorded state,
\* so that one run of TLC examines every event of every trace.
Report(t, k, bad) == IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToString(t) \o " " \o ToString(k) \o " " \o ToString(bad))
Has(r, f) == f \in DOMAIN r
=============================================================================
