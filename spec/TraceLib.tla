------------------------------ MODULE TraceLib ------------------------------
(* common to all trace specifications: the recorded events of the real code, *)
(* read from the file named by the environment variable TRACE                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Accepted == PrintT("@ACCEPTED " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
\* compare what was observed with what the specification requires
Same(what, got, exp) == IF got = exp THEN TRUE ELSE PrintT("@DIAG " \o what \o ": observed " \o ToString(got) \o ", specified " \o ToString(exp)) /\ FALSE
Holds(what, c, info) == IF c THEN TRUE ELSE PrintT("@DIAG " \o what \o ": " \o ToString(info)) /\ FALSE
Fld(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
=============================================================================
