------------------------------- MODULE CaseIO -------------------------------
(* The cases to judge, from the file named by the environment variable     *)
(* CASES.  The Java override only keeps the value instead of reading the   *)
(* file again for every access.                                            *)
EXTENDS Sequences, Json, IOUtils
CachedCases == JsonDeserialize(IOEnv.CASES)
\* data of the specification kept in a file beside it
CachedTable(name) == JsonDeserialize(IOEnv.SPECDIR \o "/" \o name)
=============================================================================
