------------------------------ MODULE TraceIO ------------------------------
(* The recorded executions: one record per case, with id and events ev.     *)
EXTENDS Json, IOUtils, TLC, Sequences, Naturals
Cases == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
