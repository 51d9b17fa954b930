---------------------------- MODULE GrammarTrace ----------------------------
(***************************************************************************)
(* Recorded conversions of derived programs.  A record:                    *)
(*   exc   : "" or the error                                               *)
(*   valid : the output parses                                             *)
(*   want  : the tree of the image (canonical text), out : that of the     *)
(*           output                                                        *)
(*   torch : the file imports PyTorch                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
tvars == <<rec, verdict>>
TInit == rec \in 1..Len(Obs) /\ verdict = "?"
Clause == CASE R.exc # ""      -> "C19.error"
            [] ~R.valid        -> "C19.invalid"
            [] R.out # R.want  -> IF R.uses THEN "C15.tree" ELSE "C14.tree"
            [] OTHER           -> "ok"
Judge == verdict = "?" /\ verdict' = Clause /\ Tally /\ UNCHANGED rec
TSpec == TInit /\ [][Judge]_tvars
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [want |-> R.want])
=============================================================================
