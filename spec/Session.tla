------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Several conversions one after another in one process, and the things a  *)
(* process keeps between them: the destination and content of the helper   *)
(* code, the names of C++ extensions found so far, the wrapper classes     *)
(* found so far, the table of recognised packages, and the counter behind  *)
(* generated names.  A conversion may read, fill and leave behind each of  *)
(* them; its observable result has to be a function of its own input only. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,      \* kinds of conversions
          MaxRuns

VARIABLES hist,       \* sequence of kinds run so far, the last one may still run
          phase,      \* "idle", "running", "done"
          files,      \* files of the current run still to be converted
          helperTo,   \* run number whose output receives helper code (0: none)
          helper,     \* helper functions collected
          exts,       \* extension names collected
          wrappers,   \* wrapper classes collected
          ctr,        \* counter behind generated names
          result,     \* result of the current run: set of observable effects
          results     \* results of all finished runs
vars == <<hist, phase, files, helperTo, helper, exts, wrappers, ctr, result, results>>

(* --- what the files of a kind do ----------------------------------------*)
(* a file is [need: helper functions, ext: extension it builds, wraps:      *)
(* extension it wraps (and the class), uses: wrapper class it uses,         *)
(* fail: cannot be parsed, tmp: needs a generated name]                     *)
F0 == [need |-> {}, ext |-> "", wraps |-> "", uses |-> "", fail |-> FALSE, tmp |-> FALSE, mode |-> "default"]
FilesOf(k) ==
  CASE k = "plain"      -> <<F0>>
    [] k = "helpA"      -> <<[F0 EXCEPT !.need = {"A"}]>>
    [] k = "helpB"      -> <<[F0 EXCEPT !.need = {"B"}]>>
    [] k = "dirA"       -> <<[F0 EXCEPT !.need = {"A"}], F0>>
    [] k = "dirAB"      -> <<[F0 EXCEPT !.need = {"A"}], [F0 EXCEPT !.need = {"B"}], [F0 EXCEPT !.need = {"A"}]>>
    [] k = "dirplain"   -> <<F0, F0>>
    [] k = "failhelp"   -> <<[F0 EXCEPT !.need = {"B"}], [F0 EXCEPT !.fail = TRUE]>>
    [] k = "fail"       -> <<[F0 EXCEPT !.fail = TRUE]>>
    [] k = "build"      -> <<[F0 EXCEPT !.ext = "E"]>>
    [] k = "extproj"    -> <<[F0 EXCEPT !.ext = "E"], [F0 EXCEPT !.wraps = "E"], [F0 EXCEPT !.uses = "W"]>>
    [] k = "wrap"       -> <<[F0 EXCEPT !.wraps = "E"], F0>>
    [] k = "use"        -> <<[F0 EXCEPT !.uses = "W"]>>
    [] k = "failext"    -> <<[F0 EXCEPT !.ext = "E"], [F0 EXCEPT !.wraps = "E"], [F0 EXCEPT !.fail = TRUE]>>
    [] k = "tmp"        -> <<[F0 EXCEPT !.tmp = TRUE]>>
    [] k = "samebad"    -> <<[F0 EXCEPT !.fail = TRUE]>>
    [] k = "samemin"    -> <<[F0 EXCEPT !.mode = "min"]>>
    [] k = "min"        -> <<[F0 EXCEPT !.mode = "min"]>>
    [] k = "mix"        -> <<[F0 EXCEPT !.need = {"A", "B"}, !.tmp = TRUE], [F0 EXCEPT !.need = {"A"}]>>
    [] OTHER            -> <<F0>>
IsDir(k) == k \in {"dirA", "dirAB", "dirplain", "failhelp", "extproj", "wrap", "failext", "mix", "build"}

AllKinds == {"plain", "helpA", "helpB", "dirA", "dirAB", "dirplain", "failhelp", "fail", "build", "extproj",
             "wrap", "use", "failext", "tmp", "min", "mix",
             "complete", "format", "debug", "list", "table", "alias", "same", "excl",
             "same1", "same2", "same3", "samebad", "samemin", "samedef"}

(* --- one run ------------------------------------------------------------*)
Init == /\ hist = <<>> /\ phase = "idle" /\ files = <<>>
        /\ helperTo = 0 /\ helper = {} /\ exts = {} /\ wrappers = {} /\ ctr = 0
        /\ result = {} /\ results = <<>>

Start == /\ phase = "idle" /\ Len(hist) < MaxRuns
         /\ \E k \in Kinds :
              /\ hist' = Append(hist, k)
              /\ files' = FilesOf(k)
         /\ phase' = "running"
         \* whatever an earlier run left behind is forgotten here
         /\ helperTo' = Len(hist) + 1 /\ helper' = {} /\ exts' = {} /\ wrappers' = {}
         /\ result' = {}
         /\ UNCHANGED <<ctr, results>>

\* effects of converting file f in state: independent of generated numbers
Effects(f) ==
     {<<"need", h>> : h \in f.need}
  \cup (IF f.ext # "" THEN {<<"setup", f.ext>>} ELSE {})
  \cup (IF f.wraps # "" THEN IF f.wraps \in exts THEN {<<"wrapper-removed", "W">>} ELSE {<<"wrapper-kept", "W">>} ELSE {})
  \cup (IF f.uses # "" THEN IF f.uses \in wrappers THEN {<<"use-replaced", "W">>} ELSE {<<"use-kept", "W">>} ELSE {})
  \cup (IF f.tmp THEN {<<"tmp", "#">>} ELSE {})

Convert == /\ phase = "running" /\ files # <<>> /\ ~Head(files).fail
           /\ LET f == Head(files) IN
                /\ result' = result \cup Effects(f)
                /\ helper' = helper \cup f.need
                /\ exts' = exts \cup (IF f.ext # "" THEN {f.ext} ELSE {})
                /\ wrappers' = wrappers \cup (IF f.wraps # "" /\ f.wraps \in exts THEN {"W"} ELSE {})
                /\ ctr' = ctr + (IF f.tmp THEN 1 ELSE 0)
           /\ files' = Tail(files)
           /\ UNCHANGED <<hist, phase, helperTo, results>>

Fail == /\ phase = "running" /\ files # <<>> /\ Head(files).fail
        /\ result' = result \cup {<<"error", "">>}
        /\ results' = Append(results, result')
        /\ phase' = "idle" /\ files' = <<>>
        \* an aborted run leaves helper, exts and wrappers behind
        /\ UNCHANGED <<hist, helperTo, helper, exts, wrappers, ctr>>

WriteHelper == /\ phase = "running" /\ files = <<>>
               /\ result' = result \cup {<<"defines", h>> : h \in helper}
               /\ results' = Append(results, result')
               /\ phase' = "idle"
               /\ UNCHANGED <<hist, files, helperTo, helper, exts, wrappers, ctr>>

Next == Start \/ Convert \/ Fail \/ WriteHelper
Spec == Init /\ [][Next]_vars

(* --- isolation ----------------------------------------------------------*)
\* the result of a kind in a process of its own
RECURSIVE Alone(_, _, _, _, _)
Alone(fs, ex, wr, hp, res) ==
  IF fs = <<>> THEN res \cup {<<"defines", h>> : h \in hp}
  ELSE LET f == Head(fs) IN
    IF f.fail THEN res \cup {<<"error", "">>}
    ELSE Alone(Tail(fs),
               ex \cup (IF f.ext # "" THEN {f.ext} ELSE {}),
               wr \cup (IF f.wraps # "" /\ f.wraps \in ex THEN {"W"} ELSE {}),
               hp \cup f.need,
               res \cup {<<"need", h>> : h \in f.need}
                   \cup (IF f.ext # "" THEN {<<"setup", f.ext>>} ELSE {})
                   \cup (IF f.wraps # "" THEN IF f.wraps \in ex THEN {<<"wrapper-removed", "W">>} ELSE {<<"wrapper-kept", "W">>} ELSE {})
                   \cup (IF f.uses # "" THEN IF f.uses \in wr THEN {<<"use-replaced", "W">>} ELSE {<<"use-kept", "W">>} ELSE {})
                   \cup (IF f.tmp THEN {<<"tmp", "#">>} ELSE {}))
ResultOf(k) == Alone(FilesOf(k), {}, {}, {}, {})

Isolated == \A i \in 1..Len(results) : results[i] = ResultOf(hist[i])
HelperDefined == \A i \in 1..Len(results) : \A e \in results[i] :
                   e[1] = "need" /\ <<"error", "">> \notin results[i] => <<"defines", e[2]>> \in results[i]
OwnHelper == phase = "running" => helperTo = Len(hist)

Emit == (phase = "idle" /\ Len(hist) = MaxRuns) => PrintT("@CASE " \o ToJson([hist |-> hist]))
=============================================================================
