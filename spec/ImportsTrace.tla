---------------------------- MODULE ImportsTrace ----------------------------
(***************************************************************************)
(* Replay of a recorded conversion on the import model.  A record:         *)
(*   loc, stmts, uses   the program                                        *)
(*   exc, ret           outcome and returned counts                        *)
(*   same               per use: the expected expression stands in place   *)
(*   imps               imported names found, as "place|form|mod|name|as"  *)
(*   once               listings must match with multiplicity              *)
(*   doc, future        docstring / __future__ imports still come first    *)
(*   dangling           names that nothing binds, on unmarked lines        *)
(*   rest               the remaining statements are as they were          *)
(***************************************************************************)
EXTENDS Imports, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
tvars == <<vars, rec, verdict>>
TInit == /\ rec \in 1..Len(Obs) /\ verdict = "?"
         /\ loc = R.loc /\ stmts = R.stmts /\ uses = R.uses /\ phase = "go" /\ n = 1 /\ m = 1
         /\ bind = <<>> /\ kept = <<>> /\ pkgs = {} /\ mays = {} /\ out = <<>>
TStep == (Import \/ Begin2 \/ Resolve \/ Finish) /\ UNCHANGED <<rec, verdict>>

Str(pl, w) == pl \o "|" \o w.form \o "|" \o Dot(w.mod) \o "|" \o w.name \o "|" \o w.as
Expected == [x \in 1..Len(kept) |-> Str(kept[x].place, kept[x].w)]
HeaderStr == {"top|import|" \o h \o "||" : h \in Header}
ToSet(s) == {s[x] : x \in 1..Len(s)}
Count(s, v) == Cardinality({x \in 1..Len(s) : s[x] = v})
Want(v) == Count(Expected, v) + (IF v \in HeaderStr THEN 1 ELSE 0)
ImportsOk == LET all == ToSet(Expected) \cup HeaderStr IN
             /\ ToSet(R.imps) = all
             /\ R.once => \A v \in all : Count(R.imps, v) = Want(v)
Cnt(c) == Cardinality({x \in 1..Len(uses) : Apis[uses[x].api].cnt = c /\ Fate(uses[x].via) = "gone" /\ pkgs # {}})
Texts == out = R.exp

C10 == CASE R.exc # "" -> "C10.error"
         [] ~Texts -> "C10.model-and-generator-differ"
         [] \E x \in 1..Len(uses) : ~R.same[x] -> "C10.expression"
         [] R.ret # <<Cnt("s"), Cnt("f")>> -> "C10.counts"
         [] OTHER -> "ok"
C11 == CASE R.exc # "" -> "C11.error"
         [] ~ImportsOk -> "C11.imports"
         [] ~R.doc -> "C11.docstring"
         [] ~R.future -> "C11.future"
         [] ~R.rest -> "C11.other-statements"
         [] OTHER -> "ok"
C12 == CASE R.exc # "" -> "C12.error"
         [] R.dangling # <<>> -> "C12.dangling"
         [] OTHER -> "ok"
Clause == CASE R.focus = "C10" -> C10 [] R.focus = "C11" -> C11 [] R.focus = "C12" -> C12
Judge == /\ phase = "done" /\ verdict = "?" /\ verdict' = Clause /\ Tally /\ UNCHANGED <<vars, rec>>
TNext == TStep \/ Judge
TSpec == TInit /\ [][TNext]_tvars
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [exp |-> out, kept |-> Expected, header |-> HeaderStr])
=============================================================================
