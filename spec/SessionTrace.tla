---------------------------- MODULE SessionTrace ----------------------------
(* Each record is one process: the kinds it ran and, per run, the digest of *)
(* everything observable (output files with generated numbers removed,      *)
(* counts, API lists, error) and of the same run in a process of its own.   *)
(* The kinds the model knows in detail also report their abstract effects,  *)
(* which have to be the modelled ones; the model runs along step by step.   *)
EXTENDS Session, JudgeLib
VARIABLES rec, verdict
tvars == <<vars, rec, verdict>>
R == Obs[rec]
TInit == /\ rec \in 1..Len(Obs) /\ verdict = "?"
         /\ hist = <<>> /\ phase = "idle" /\ files = <<>>
         /\ helperTo = 0 /\ helper = {} /\ exts = {} /\ wrappers = {} /\ ctr = 0
         /\ result = {} /\ results = <<>>
TStart == /\ Len(hist) < Len(R.hist)
          /\ Start /\ hist' = Append(hist, R.hist[Len(hist) + 1])
          /\ UNCHANGED <<rec, verdict>>
TStep == (Convert \/ Fail \/ WriteHelper) /\ UNCHANGED <<rec, verdict>>
ToSet(s) == {s[i] : i \in 1..Len(s)}
Modelled(k) == k \in {"plain", "helpA", "helpB", "dirA", "dirAB", "dirplain", "failhelp", "fail", "extproj", "wrap", "use", "failext", "mix"}
\* effects that can be read off the outputs
Visible(S) == {e \in S : e[1] \in {"error", "defines", "wrapper-removed", "wrapper-kept", "use-replaced", "use-kept"}}
Clause ==
  CASE \E i \in 1..Len(R.runs) : R.runs[i].exc = "TIMEOUT"  -> "C05.hang"
    [] \E i \in 1..Len(R.runs) : R.runs[i].digest # R.runs[i].alone -> "C05.differs-from-fresh-process"
    [] \E i \in 1..Len(R.runs) : Modelled(R.hist[i]) /\ ToSet(R.runs[i].effects) # Visible(results[i]) -> "C05.effects"
    [] OTHER -> "ok"
Judge == /\ phase = "idle" /\ Len(results) = Len(R.hist) /\ verdict = "?"
         /\ verdict' = Clause /\ Tally /\ UNCHANGED <<vars, rec>>
TNext == TStart \/ TStep \/ Judge
TSpec == TInit /\ [][TNext]_tvars
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [hist |-> hist, expected |-> results])
=============================================================================
