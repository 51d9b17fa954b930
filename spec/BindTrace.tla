----------------------------- MODULE BindTrace -----------------------------
(***************************************************************************)
(* Replay of recorded conversions of single calls.  A record is one call   *)
(* of one API: api, call, ctx; what the converter made of it: exc, text    *)
(* (normalised) and marked; and for APIs with a conversion of their own    *)
(* what the contract says about this call (own: text, marked).  The model  *)
(* binds the call itself; same tells whether the text written is the text  *)
(* the model writes (textual comparison up to layout and keyword order is  *)
(* done outside, by parsing both).                                         *)
(* A record of kind "sum" compares the counts of a whole file; one of kind *)
(* "gone" tells that some converted call of the API does not show the      *)
(* value that was given for parameter R.param.                             *)
(***************************************************************************)
EXTENDS Bind, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
ASSUME TLCSet(43, JsonDeserialize(IOEnv.CONTRACT))
TEntry(a) == TLCGet(43)[a]
TCalls(e) == {}
tvars == <<vars, rec, verdict>>
TInit == /\ rec \in 1..Len(Obs) /\ verdict = "?"
         /\ api = R.api /\ call = R.call /\ ctx = R.ctx
         /\ k = 1 /\ bound = <<>> /\ out = <<>>
         /\ status = IF R.kind # "call" \/ TEntry(R.api).style = "own" THEN "own" ELSE "look"
\* a name of the package that stays in the text is marked, whoever it belongs to
Shown == status = "unsupported" \/ (status = "alien" /\ ~E.method)
Hints == {"layout", "device", "memory_format", "inplace", "generator", "non_blocking", "async", "sparse_grad", "foreach"}
MayGo(e, p) == p \in Hints \/ (p \in DOMAIN e.change /\ e.change[p] = <<>>)
Clause == CASE R.kind = "gone" -> IF MayGo(TEntry(R.api), R.param) THEN "ok" ELSE "vanishes"
            [] R.exc # ""                                         -> "error"
            [] R.kind = "sum" /\ R.got # R.want                   -> "counts"
            [] R.kind = "sum"                                     -> "ok"
            [] status # R.status                                  -> "model-disagrees-with-generator"
            [] status = "own" /\ R.text # R.own.text              -> "other-code"
            [] status = "own" /\ R.marked # R.own.marked          -> "marking"
            [] status = "own"                                     -> "ok"
            [] ~R.same /\ status \in {"unsupported", "alien"}     -> "left-call-changed"
            [] ~R.same                                            -> "arguments"
            [] R.marked # Shown                                   -> "marking"
            [] OTHER -> "ok"
Judge == /\ Final /\ verdict = "?" /\ verdict' = Clause /\ Tally /\ UNCHANGED <<vars, rec>>
TNext == (Next /\ UNCHANGED <<rec, verdict>>) \/ Judge
TSpec == TInit /\ [][TNext]_tvars
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [status |-> status])
=============================================================================
