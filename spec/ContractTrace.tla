--------------------------- MODULE ContractTrace ---------------------------
(***************************************************************************)
(* Replay of recorded conversions of names: name, form, and what came out: *)
(* exc, same (the text is the model's), marked, ret (of the file with this *)
(* one use).  Records of form "pair" compare an alias with its API: a, b   *)
(* are the two results, which must be the same.                            *)
(***************************************************************************)
EXTENDS Contract, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
tvars == <<vars, rec, verdict>>
TInit == /\ rec \in 1..Len(Obs) /\ verdict = "?" /\ name = R.name /\ canon = R.name /\ form = R.form /\ text = "" /\ status = "?"
         /\ step = IF R.form = "pair" THEN "done" ELSE "spell"
Clause == CASE R.exc # ""                                     -> "error"
            [] R.form = "pair"                                -> IF R.a = R.b THEN "ok" ELSE "alias-differs"
            [] R.exp # "result = " \o text                    -> "model-disagrees-with-generator"
            [] ~R.same                                        -> IF status = "unsupported" THEN "unsupported-name-changed" ELSE "other-name"
            [] R.marked # (status = "unsupported")            -> "marking"
            [] R.ret # IF status = "unsupported" THEN <<0, 1>> ELSE <<1, 0>> -> "counts"
            [] OTHER -> "ok"
Judge == /\ step = "done" /\ verdict = "?" /\ verdict' = Clause /\ Tally /\ UNCHANGED <<vars, rec>>
TNext == (Next /\ UNCHANGED <<rec, verdict>>) \/ Judge
TSpec == TInit /\ [][TNext]_tvars
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [status |-> status, text |-> text])
=============================================================================
