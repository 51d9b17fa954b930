--------------------------- MODULE CustomOpTrace ---------------------------
(***************************************************************************)
(* A recorded conversion of a project with C++ extensions, replayed on     *)
(* CustomOp.  A record: mode, files (the project, item by item), exc, ret,       *)
(* seen: per file [sites <<text, annotated and marked>>, classes, imports, *)
(* froms, stray], unss: the listing of unsupported APIs as <<name, n>>.    *)
(***************************************************************************)
EXTENDS CustomOp, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
TInit == /\ rec \in 1..Len(Obs) /\ verdict = "?"
         /\ files = R.files /\ mode = R.mode /\ cur = <<>> /\ phase = "convert" /\ run = 1
         /\ at = 1 /\ exts = {} /\ wraps = {} /\ out = <<>> /\ succ = 0 /\ fail = 0 /\ unss = <<>>
TStep == (File \/ Done) /\ UNCHANGED <<rec, verdict>>
ToSet(s) == {s[n] : n \in 1..Len(s)}
Texts(s) == [n \in 1..Len(s) |-> s[n][1]]
Flags(s) == [n \in 1..Len(s) |-> s[n][2]]
Some(P(_)) == \E n \in 1..Len(out) : P(n)
Rows == {<<x, unss[x]>> : x \in DOMAIN unss}
Clause ==
  CASE R.exc # "" -> "C25.error"
    [] Len(R.seen) # Len(out) -> "C25.files"
    [] Some(LAMBDA n : ToSet(R.seen[n].classes) # out[n].classes) -> "C25.classes"
    [] Some(LAMBDA n : Texts(R.seen[n].sites) # Texts(out[n].sites)) -> "C25.uses"
    [] Some(LAMBDA n : Flags(R.seen[n].sites) # Flags(out[n].sites)) -> "C25.marks"
    [] Some(LAMBDA n : ToSet(R.seen[n].imports) # out[n].imports) -> "C25.imports"
    [] Some(LAMBDA n : ToSet(R.seen[n].froms) # out[n].froms) -> "C25.wrapper-imports"
    [] Some(LAMBDA n : R.seen[n].stray > 0) -> "C25.stray-marks"
    [] R.ret # <<succ, fail>> -> "C25.counts"
    [] R.listed /\ ToSet(R.unss) # Rows -> "C25.listing"
    [] OTHER -> "ok"
Judge == /\ phase = "done" /\ verdict = "?" /\ verdict' = Clause /\ Tally /\ UNCHANGED <<vars, rec>>
TNext == TStep \/ Judge
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [out |-> out, succ |-> succ, fail |-> fail, unss |-> unss])
=============================================================================
