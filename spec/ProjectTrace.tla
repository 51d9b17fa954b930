---------------------------- MODULE ProjectTrace ----------------------------
(* Validation of recorded conversions against Project: each record fixes    *)
(* the scenario; the specification's own actions then run the walk, and the *)
(* final specified state is compared with what was observed.                *)
EXTENDS Project, JudgeLib
VARIABLES rec, verdict
tvars == <<vars, rec, verdict>>
R == Obs[rec]

TInit == /\ rec \in 1..Len(Obs)
         /\ verdict = "?"
         /\ tree = Obs[rec].scn.tree
         /\ pat = "none" /\ place = "fresh"
         /\ phase = "opts" /\ todo = <<>> /\ out = {} /\ opened = {} /\ err = FALSE

TOpts == /\ \/ pat' = R.scn.pat /\ ChoosePat
            \/ place' = R.scn.place /\ ChoosePlace
         /\ UNCHANGED <<rec, verdict>>
TWalk == Walk /\ UNCHANGED <<rec, verdict>>

(* --- comparison ---------------------------------------------------------*)
ToSet(s) == {s[i] : i \in 1..Len(s)}
\* (a directory put in the way of an output is no output)
OutSet == {[path |-> e.path, what |-> e.what] : e \in {x \in ToSet(R.outs) : x.what # "block"}}
OutPaths == {e.path : e \in OutSet}
FailPaths == {p \in Files(Selected) : Fails(p)}
\* what a fault-free run writes for the files that do not fail
Full == {[path |-> p, what |-> What(p)] : p \in {q \in Selected : ~Fails(q) /\ Kind(q) \notin Unlinked}}
Mutations == {"write", "mkdir", "remove", "rename", "link", "chmod", "other"}
OldAt1 == place \in {"stale", "f:over"} /\ tree[1] \notin DirKinds \cup NoEntry \cup Unlinked
Old1 == [path |-> <<1>>, what |-> "old"]
Expected == out \cup (IF OldAt1 /\ ~\E e \in out : e.path = <<1>> THEN {Old1} ELSE {})

Clause ==
  CASE R.crash # ""                                        -> "C19.crash"
    [] Len(R.indiff) > 0                                   -> "C01.input-changed"
    [] R.shared                                            -> "C01.shares-storage"
    [] \E o \in ToSet(R.ops) : o.op \in Mutations /\ o.area = "in"   -> "C01.write-in-input"
    [] \E o \in ToSet(R.ops) : o.op \in Mutations /\ o.area = "ext"  -> "C01.write-elsewhere"
    [] place \in Refused /\ ~R.err                         -> "C01.not-refused"
    [] place \in Refused                                   -> "ok"
    [] \E o \in ToSet(R.ops) : o.op = "read" /\ o.area = "in" /\ o.path # <<>> /\ Reachable(Last(o.path)) /\ o.path \notin Selected
                                                           -> "C03.opened-left-out"
    [] \E p \in OutPaths : p # <<>> /\ p # <<0>> /\ p \notin Selected /\ [path |-> p, what |-> "old"] \notin OutSet  -> "C03.left-out-but-written"
    [] ~err /\ R.err                                       -> "C04.unexpected-error"
    [] err /\ ~R.err                                       -> "C04.error-swallowed"
    [] ~R.stalekept                                        -> "C02.other-output-changed"
    [] ~err /\ \E e \in Expected : e.path \notin OutPaths /\ e.what # "helper"  -> "C03.selected-but-missing"
    [] ~err /\ OutSet # Expected                           -> "C02.mirror"
    [] err /\ \E e \in OutSet : e.path \in FailPaths /\ ~(OldAt1 /\ e = Old1) -> "C04.output-of-failing-file"
    [] err /\ ~(OutSet \subseteq (Full \cup (IF OldAt1 THEN {Old1} ELSE {}) \cup {[path |-> <<>>, what |-> "helper"]})) -> "C04.partial-output"
    [] ~R.nextok                                           -> "C04.next-run-affected"
    [] OTHER                                               -> "ok"

Judge == /\ phase = "done" /\ verdict = "?"
         /\ verdict' = Clause
         /\ Tally
         /\ UNCHANGED <<vars, rec>>
TNext == TOpts \/ TWalk \/ Judge
TSpec == TInit /\ [][TNext]_tvars

Report == verdict \notin {"?", "ok"} =>
   Bad(rec, verdict, [expected |-> Expected, observed |-> OutSet, err |-> err])
=============================================================================
