----------------------------- MODULE TwiceTrace -----------------------------
(***************************************************************************)
(* Replay of recorded passes.  A record holds a program (sites), the modes *)
(* of the passes, and per pass: exc, ret <<s, f>>, marks (lines marked),   *)
(* same (the text of every site is the one the model prescribes), fp (a    *)
(* fingerprint of the program, imports apart).  A record without sites     *)
(* (kind "opaque") is a program whose uses the model does not know: its    *)
(* first pass, in default mode, is taken as it is; if it converted         *)
(* completely, the later ones have to find nothing.                        *)
(***************************************************************************)
EXTENDS Twice, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
tvars == <<vars, rec, verdict>>
TInit == /\ rec \in 1..Len(Obs) /\ verdict = "?"
         /\ sites = R.sites /\ torch = TRUE /\ phase = "idle" /\ mode = "" /\ hist = <<>>
         /\ sp = [n \in 1..Len(R.sites) |-> [u \in 1..Len(R.sites[n].chain) |-> "src"]]
Next1 == R.passes[Len(hist) + 1]
Seen(x) == R.passes[x]
Opaque == R.kind = "opaque"
\* the pass the record made, judged before the next one
TPass == /\ verdict = "?" /\ Len(hist) < Len(R.passes) /\ Pass /\ mode' = Next1.mode
         /\ LET o == Next1 h == hist'[Len(hist')] first == hist = <<>> IN
            verdict' = CASE o.exc # "" -> (IF Opaque /\ first THEN "skip" ELSE "C21.error")
              [] Opaque /\ first -> IF o.ret[2] # 0 \/ o.marks # 0 THEN "skip" ELSE "?"
              [] o.ret[2] # 0 -> "C21.unsupported-appears"
              [] o.ret[1] # h.s -> "C21.counts"
              [] o.marks # 0 -> "C21.marked"
              [] ~o.same -> "C21.text"
              [] ~first /\ ~h.changed /\ o.fp # Seen(Len(hist)).fp -> "C21.changed"
              [] OTHER -> "?"
         /\ UNCHANGED rec
TEnd == /\ verdict # "done" /\ ~(verdict = "?" /\ Len(hist) < Len(R.passes)) /\ Tally
        /\ verdict' = "done" /\ UNCHANGED <<vars, rec>>
TNext == TPass \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
Report == verdict \notin {"?", "done", "skip"} => Bad(rec, verdict, [pass |-> Len(hist), s |-> hist[Len(hist)].s, changed |-> hist[Len(hist)].changed])
=============================================================================
