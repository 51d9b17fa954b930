------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* C12 on arbitrary programs.  A conversion may bind new names and drop    *)
(* bindings; afterwards every name used is bound, was free before, or is   *)
(* shown as unconverted.  A record: free (free names of the original),     *)
(* used: sequence of [name, bound, early, marked] for each free or new     *)
(* name of the converted program, star (a star import is involved).        *)
(***************************************************************************)
EXTENDS JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
ToSet(s) == {s[x] : x \in 1..Len(s)}
Loose(u) == u.name \notin ToSet(R.free) /\ ~u.bound /\ ~u.marked
Early(u) == u.bound /\ u.early /\ ~u.marked
Verdict == CASE R.exc # "" -> "C12.error"
             [] \E u \in ToSet(R.used) : Loose(u) -> "C12.dangling"
             [] \E u \in ToSet(R.used) : Early(u) -> "C12.used-before-bound"
             [] OTHER -> "ok"
Init == rec \in 1..Len(Obs) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Verdict /\ Tally /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, verdict>>
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [loose |-> {u.name : u \in {x \in ToSet(R.used) : Loose(x) \/ Early(x)}}])
=============================================================================
