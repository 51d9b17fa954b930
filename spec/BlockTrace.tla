----------------------------- MODULE BlockTrace -----------------------------
(***************************************************************************)
(* Replay: the recorded program is read by the model, and the statements   *)
(* of the converter's output, read back from its syntax tree, must be the  *)
(* ones the model wrote.                                                   *)
(***************************************************************************)
EXTENDS Block, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
tvars == <<vars, rec, verdict>>
TInit == /\ rec \in 1..Len(Obs) /\ verdict = "?"
         /\ prog = R.prog /\ open = <<>> /\ phase = "read" /\ i = 1 /\ out = <<>> /\ stack = <<>>
TStep == Read /\ UNCHANGED <<rec, verdict>>
\* pass does nothing, wherever it stands (that blocks are not empty shows in the output being Python)
Real(s) == SelectSeq(s, LAMBDA t : t.x # "pass")
TX(s) == [n \in 1..Len(s) |-> <<s[n].t, s[n].x>>]
Clause == CASE R.exc \in {"InvalidPython", "TIMEOUT"} \/ (R.exc # "" /\ R.exc # "NoOutput") -> "C16.error"
            [] R.exc # ""          -> "C16.no-output"
            [] TX(Real(R.out)) # TX(Real(out)) -> "C16.statements"
            [] Real(R.out) # Real(out)         -> "C16.marks"
            [] OTHER -> "ok"
Judge == /\ phase = "done" /\ verdict = "?" /\ verdict' = Clause /\ Tally /\ UNCHANGED <<vars, rec>>
TNext == TStep \/ Judge
TSpec == TInit /\ [][TNext]_tvars
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [out |-> out])
=============================================================================
