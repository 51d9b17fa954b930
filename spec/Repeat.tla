------------------------------- MODULE Repeat -------------------------------
(* Determinism: a conversion is a function of the project and the options.  *)
(* The environment chooses hash seed, listing order, location and process   *)
(* history; none of them may show.  Records of the same item under several  *)
(* environments are presented one after the other; the specification keeps  *)
(* the first answer of each item and rejects a different one.               *)
EXTENDS JudgeLib, FiniteSets
VARIABLES i, verdict
\* record: [item, answers : Seq([env, digest])]
Init == i = 0 /\ verdict = "ok"
Clause(r) == IF \A a, b \in 1..Len(r.answers) : r.answers[a].digest = r.answers[b].digest THEN "ok" ELSE r.clause
Step == /\ i < Len(Obs) /\ i' = i + 1 /\ Tally
        /\ verdict' = Clause(Obs[i + 1])
Spec == Init /\ [][Step]_<<i, verdict>>
Report == verdict # "ok" => Bad(i, verdict, Obs[i].item)
=============================================================================
