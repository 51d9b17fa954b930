------------------------------ MODULE JudgeLib ------------------------------
(* Bookkeeping shared by the trace modules: every record must receive a     *)
(* verdict (the postcondition prints how many did; the driver compares it   *)
(* with the number of records), and every rejected record is printed with   *)
(* the name of the clause it breaks.  Runs with one worker.                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
ASSUME TLCSet(41, 0)
\* the recorded observations, read once
ASSUME TLCSet(42, ndJsonDeserialize(IOEnv.OBS))
Obs == TLCGet(42)
Tally == TLCSet(41, TLCGet(41) + 1)
Judged == PrintT("@JUDGED " \o ToJson([n |-> TLCGet(41)]))
Bad(i, clause, detail) == PrintT("@BAD " \o ToJson([i |-> i, clause |-> clause, detail |-> detail]))
=============================================================================
