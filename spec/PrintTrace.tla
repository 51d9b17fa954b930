----------------------------- MODULE PrintTrace -----------------------------
(***************************************************************************)
(* One program under two presentations.  A record holds for each of them:  *)
(*   exc, ret, view <<marked statements, syntax tree>> (fingerprints)      *)
(* Tool!PresentationIsInert for programs of any kind.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
TInit == rec \in 1..Len(Obs) /\ verdict = "?"
Clause == CASE R.a.exc # R.b.exc         -> "C20.error"
            [] R.a.ret # R.b.ret         -> "C20.counts"
            [] R.a.view[2] # R.b.view[2] -> "C20.program"
            [] R.a.view[1] # R.b.view[1] -> "C20.marks"
            [] OTHER                     -> "ok"
Judge == verdict = "?" /\ verdict' = Clause /\ Tally /\ UNCHANGED rec
TSpec == TInit /\ [][Judge]_<<rec, verdict>>
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [x |-> 0])
=============================================================================
