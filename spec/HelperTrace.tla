---------------------------- MODULE HelperTrace ----------------------------
(***************************************************************************)
(* Replay of recorded runs.  R.runs as in Helper; R.obs[x], what run x     *)
(* left behind:                                                            *)
(*   exc     : "" or the error                                             *)
(*   chunks  : pairs <<helper, number of times its code is present>>       *)
(*   excess  : statements of helper code that belong to no helper needed   *)
(*   module  : a helper module was written                                 *)
(*   imports : the files that import it (each exactly once, in order)      *)
(*   inline  : the files that carry helper code themselves                 *)
(*   free    : names of converted code that nothing defines                *)
(*   head    : docstring and from-future imports are where they were       *)
(* patch: members the helper code adds to Paddle classes                   *)
(***************************************************************************)
EXTENDS Helper, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
tvars == <<vars, rec, verdict>>
TInit == /\ rec \in 1..Len(Obs) /\ verdict = "?"
         /\ runs = R.runs /\ phase = "convert" /\ r = 1 /\ f = 1 /\ need = <<{}>> /\ wants = <<{}>>
TStep == Convert /\ UNCHANGED <<rec, verdict>>
S(s) == {s[n] : n \in 1..Len(s)}
Times(o, h) == LET P == {p \in S(o.chunks) : p[1] = h} IN IF P = {} THEN 0 ELSE (CHOOSE p \in P : TRUE)[2]
Run(x) == LET o == R.obs[x] IN
  CASE o.exc # ""                                   -> "C17.error"
    [] \E h \in need[x] : Times(o, h) = 0           -> "C17.helper-missing"
    [] \E h \in need[x] : Times(o, h) > 1           -> "C17.helper-repeated"
    [] o.excess # 0                                 -> "C17.helper-without-need"
    [] runs[x].dir /\ o.module # (need[x] # {})     -> "C17.module"
    [] ~runs[x].dir /\ o.module                     -> "C17.module"
    [] runs[x].dir /\ S(o.imports) # wants[x]       -> "C17.imports"
    [] ~runs[x].dir /\ o.imports # <<>>             -> "C17.imports"
    [] S(o.inline) # (IF runs[x].dir THEN {} ELSE wants[x]) -> "C17.inline"
    [] o.free # <<>>                                -> "C17.undefined"
    [] \E h \in need[x] \cap DOMAIN Patch : ~(Patch[h] \subseteq S(o.patch)) -> "C17.member-missing"
    [] ~o.head                                      -> "C17.position"
    [] OTHER -> "ok"
BadRuns == {x \in 1..Len(runs) : Run(x) # "ok"}
Clause == IF BadRuns = {} THEN "ok" ELSE Run(CHOOSE x \in BadRuns : \A y \in BadRuns : x <= y)
Judge == /\ phase = "done" /\ verdict = "?" /\ verdict' = Clause /\ Tally /\ UNCHANGED <<vars, rec>>
TNext == TStep \/ Judge
TSpec == TInit /\ [][TNext]_tvars
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [need |-> need, wants |-> wants])
=============================================================================
