------------------------------ MODULE ToolTrace ------------------------------
(***************************************************************************)
(* A recorded run of the tool, replayed on the model.  A record:           *)
(*   proj, argv, via                                                       *)
(*   end    : "ok" or "error"                                              *)
(*   warned : the tool said that minimal mode switches formatting off      *)
(*   place  : the output is where it was asked for                         *)
(*   files  : per output file [path, sites, kept, ok]; strange : other     *)
(*            files that appeared                                          *)
(*   ret    : <<s, f>> (library only, else <<>>), nums : the numbers the   *)
(*            summary prints                                               *)
(*   log    : tokens of the log in order; levels : levels seen             *)
(*   tables : [name, rows] in the order of the names                       *)
(*   same   : the library with these settings wrote the same bytes         *)
(***************************************************************************)
EXTENDS Tool, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
TOpts == <<>>
tvars == <<vars, rec, verdict>>
TInit == /\ rec \in 1..Len(Obs) /\ verdict = "?"
         /\ phase = "write" /\ proj = R.proj /\ argv = R.argv /\ set = Defaults /\ usage = "ok" /\ Fresh
TStep == (Read \/ Banner \/ File \/ Walked \/ List \/ Summary) /\ UNCHANGED <<rec, verdict>>
ToSet(s) == {s[n] : n \in 1..Len(s)}
Pk(s) == ToSet(s)
FilesAsWanted == /\ Len(R.files) = Len(outp)
                 /\ \A n \in 1..Len(outp) : \E m \in 1..Len(R.files) :
                      R.files[m].path = outp[n].path
FileOf(p) == R.files[CHOOSE m \in 1..Len(R.files) : R.files[m].path = p]
Texts(s) == [n \in 1..Len(s) |-> s[n][1]]
Marks(s) == [n \in 1..Len(s) |-> s[n][2]]
TableRows(t) == [name |-> t.name, rows |-> {<<t.rows[n][1], t.rows[n][2]>> : n \in 1..Len(t.rows)}]
Tables == {TableRows(R.tables[n]) : n \in 1..Len(R.tables)}
Hidden == set.log_dir = "disable"
Total == <<succ + fail, succ, fail>>
MinWarning == R.via = "cli" /\ set.mode = "min" /\ ~Parsed(argv, Defaults).no_format
Pre == R.focus
Clause ==
  CASE usage # "ok" -> IF R.end = "ok" THEN Pre \o ".accepted-bad-arguments" ELSE IF R.files # <<>> \/ R.strange # <<>> THEN Pre \o ".converted-despite-error" ELSE "ok"
    [] R.end # "ok" -> Pre \o ".error"
    [] ~R.place -> Pre \o ".place"
    [] ~FilesAsWanted -> Pre \o ".files"
    [] R.strange # <<>> -> Pre \o ".strange-files"
    [] \E n \in 1..Len(outp) : ~FileOf(outp[n].path).ok -> Pre \o ".copied"
    [] \E n \in 1..Len(outp) : Texts(FileOf(outp[n].path).sites) # Texts(outp[n].sites) -> Pre \o ".program"
    [] \E n \in 1..Len(outp) : Marks(FileOf(outp[n].path).sites) # Marks(outp[n].sites) -> Pre \o ".marks"
    [] \E n \in 1..Len(outp) : Pk(FileOf(outp[n].path).kept) # outp[n].kept -> Pre \o ".imports"
    [] R.via = "lib" /\ R.ret # <<succ, fail>> -> Pre \o ".counts"
    [] ~Hidden /\ R.nums # Total -> Pre \o ".printed-counts"
    [] ~Hidden /\ R.log # log -> Pre \o ".log"
    [] Hidden /\ \E n \in 1..Len(R.log) : R.log[n] \notin {"summary", "markdown", "hint"} -> Pre \o ".log"
    [] ~Hidden /\ ~(\A l \in ToSet(R.levels) : Shows(l)) -> Pre \o ".level"
    [] ~Hidden /\ Shows("INFO") /\ succ > 0 /\ "INFO" \notin ToSet(R.levels) -> Pre \o ".level"
    [] ~Hidden /\ Shows("DEBUG") /\ succ + fail > 0 /\ "DEBUG" \notin ToSet(R.levels) -> Pre \o ".level"
    [] Tables # tables -> Pre \o ".tables"
    [] R.via = "cli" /\ R.warned # MinWarning -> Pre \o ".min-warning"
    [] ~R.same -> Pre \o ".differs-from-library"
    [] OTHER -> "ok"
Judge == /\ phase = "end" /\ verdict = "?" /\ verdict' = Clause /\ Tally /\ UNCHANGED <<vars, rec>>
TNext == TStep \/ Judge
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [outp |-> outp, log |-> log, tables |-> tables, succ |-> succ, fail |-> fail, usage |-> usage])
=============================================================================
