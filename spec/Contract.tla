------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* How a name is resolved.  A use is a name in one of three forms:         *)
(*   "ref"    the name itself         result = torch.abs                   *)
(*   "call"   a call of the name      result = torch.zz(va, k=vb)          *)
(*            (only of names outside the contract; calls of names in the   *)
(*            contract are the subject of Bind)                            *)
(*   "member" attribute of an object  result = x.T                         *)
(* The contract T gives alias: other spellings, ref: what a plain          *)
(* reference becomes ("" if there is nothing to become), kind: "api" or    *)
(* "attr", parent and last: the name before and after its last dot.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Forms
\* read once
ASSUME TLCSet(44, JsonDeserialize(IOEnv.NAMES))
T == TLCGet(44)
VARIABLES name, form, canon, step, text, status
vars == <<name, form, canon, step, text, status>>

Names(f) == IF f = "member" THEN DOMAIN T.member ELSE IF f = "call" THEN DOMAIN T.unknown ELSE DOMAIN T.name \cup DOMAIN T.unknown
Init == /\ form \in Forms /\ name \in Names(form) /\ canon = name /\ step = "spell" /\ text = "" /\ status = "?"
Info == IF form = "member" THEN T.member[canon] ELSE IF canon \in DOMAIN T.name THEN T.name[canon] ELSE T.unknown[canon]

Spell == /\ step = "spell" /\ step' = "look"
         /\ canon' = IF form # "member" /\ name \in DOMAIN T.alias THEN T.alias[name] ELSE name
         /\ UNCHANGED <<name, form, text, status>>
\* the contract has an entry with a counterpart
Found == /\ step = "look" /\ Info.ref # "" /\ text' = Info.ref /\ status' = "converted" /\ step' = "done" /\ UNCHANGED <<name, form, canon>>
\* members of a converted class follow their class
Member == /\ step = "look" /\ Info.ref = "" /\ form = "ref"
          /\ Info.parent \in DOMAIN T.name /\ T.name[Info.parent].kind = "api" /\ T.name[Info.parent].ref # ""
          /\ text' = T.name[Info.parent].ref \o "." \o Info.last /\ status' = "converted" /\ step' = "done" /\ UNCHANGED <<name, form, canon>>
\* anything else is reported
Unsupported == /\ step = "look" /\ Info.ref = ""
               /\ ~(form = "ref" /\ Info.parent \in DOMAIN T.name /\ T.name[Info.parent].kind = "api" /\ T.name[Info.parent].ref # "")
               /\ text' = IF form = "member" THEN "x." \o Info.last ELSE IF form = "call" THEN canon \o "(va, k=vb)" ELSE canon
               /\ status' = "unsupported" /\ step' = "done" /\ UNCHANGED <<name, form, canon>>
Next == Spell \/ Found \/ Member \/ Unsupported
Spec == Init /\ [][Next]_vars

\* one name, one meaning
OneStep == \A a \in DOMAIN T.alias : T.alias[a] \notin DOMAIN T.alias
\* every use gets an answer
Answered == step = "done" => status \in {"converted", "unsupported"} /\ text # ""
\* unknown names are never converted, except as members of a converted class
NoInvention == (step = "done" /\ status = "converted") => (Info.ref # "" \/ T.name[Info.parent].ref # "")
Source == "result = " \o (IF form = "member" THEN "x." \o T.member[name].last ELSE IF form = "call" THEN name \o "(va, k=vb)" ELSE name)
Emit == step = "done" => PrintT("@CASE " \o ToJson([name |-> name, form |-> form, src |-> Source, exp |-> "result = " \o text, status |-> status]))
=============================================================================
