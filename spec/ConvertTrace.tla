---------------------------- MODULE ConvertTrace ----------------------------
(***************************************************************************)
(* Replay of a recorded conversion.  The model takes the recorded program, *)
(* visits its uses, and its totals, lists and marks are compared with what *)
(* the converter reported and wrote.  A record:                            *)
(*   mode, sites, exc, ret <<s, f>>, sum <<total, s, f>>, rate (1/100 %),  *)
(*   alls / unss : sequences of <<name, count>>, as listed                 *)
(*   obs : per site, same (converted expression in place, rest untouched)  *)
(*         and lines : [names, head, marked] per output line               *)
(*   outside : marked lines that belong to no site                         *)
(*   focus : the property under examination                                *)
(***************************************************************************)
EXTENDS Convert, JudgeLib
VARIABLES rec, verdict
R == Obs[rec]
tvars == <<vars, rec, verdict>>

TInit == /\ rec \in 1..Len(Obs) /\ verdict = "?"
         /\ sites = R.sites /\ mode = R.mode /\ phase = "visit" /\ i = 1 /\ j = Len(R.sites[1].chain)
         /\ succ = 0 /\ fail = 0 /\ all = <<>> /\ uns = <<>> /\ left = {} /\ noted = {}
TStep == (Visit \/ NextSite \/ Finish) /\ UNCHANGED <<rec, verdict>>

ToBag(s) == [x \in {s[n][1] : n \in 1..Len(s)} |-> LET n == CHOOSE m \in 1..Len(s) : s[m][1] = x IN s[n][2]]
NoDup(s) == \A a, b \in 1..Len(s) : a # b => s[a][1] # s[b][1]
RateOk(r, s, t) == IF t = 0 THEN r = 0
                   ELSE LET d == IF r * t >= 10000 * s THEN r * t - 10000 * s ELSE 10000 * s - r * t IN 2 * d <= t
ToSet(s) == {s[n] : n \in 1..Len(s)}

\* a line shows an unconverted use of a package, or starts an annotated statement
Loose(n, l) == \E x \in ToSet(l.names) : ~(mode = "min" /\ x \in ToSet(R.kept))
MustMark(n, l) == Loose(n, l) \/ (l.head /\ n \in noted)
Missing(n) == \E l \in ToSet(R.obs[n].lines) : MustMark(n, l) /\ ~l.marked
Lost(n) == \/ n \in noted /\ ~ \E l \in ToSet(R.obs[n].lines) : l.head
           \/ \E x \in left : x[1] = n /\ ~ \E l \in ToSet(R.obs[n].lines) : x[2] \in ToSet(l.names)
TooMuch(n) == \E l \in ToSet(R.obs[n].lines) : l.marked /\ ~MustMark(n, l)
N == 1..Len(sites)

C07 == CASE R.exc # ""                              -> "C07.error"
         [] R.ret # <<succ, fail>>                  -> "C07.returned-counts"
         [] R.sum # <<succ + fail, succ, fail>>     -> "C07.printed-counts"
         [] ~RateOk(R.rate, succ, succ + fail)      -> "C07.rate"
         [] ~NoDup(R.alls) \/ ~NoDup(R.unss)        -> "C07.listed-twice"
         [] ToBag(R.alls) # all                     -> "C07.list-of-all"
         [] ToBag(R.unss) # uns                     -> "C07.list-of-unsupported"
         [] ~R.tables                               -> "C07.tables-differ-from-lists"
         [] OTHER -> "ok"
C08 == CASE R.exc # ""                              -> "C08.error"
         [] \E n \in N : Missing(n)                 -> "C08.unmarked"
         [] \E n \in N : Lost(n)                    -> "C08.use-disappeared"
         [] OTHER -> "ok"
C09 == CASE R.exc # ""                              -> "C09.error"
         [] R.outside # 0                           -> "C09.marked-outside"
         [] \E n \in N : TooMuch(n)                 -> "C09.marked-without-need"
         [] ~R.clean                                -> "C09.text-changed"
         [] OTHER -> "ok"
C15 == CASE R.exc # ""                              -> "C15.error"
         [] \E n \in N : ~R.obs[n].same             -> "C15.expression"
         [] OTHER -> "ok"
C18 == CASE R.exc # ""                              -> "C18.error"
         [] \E n \in N : ~R.obs[n].same             -> "C18.expression"
         [] ~R.imports                              -> "C18.imports"
         [] R.outside # 0                           -> "C18.marked-outside"
         [] \E n \in N : TooMuch(n)                 -> "C18.marked-without-need"
         [] \E n \in N : Missing(n)                 -> "C18.unmarked"
         [] R.ret # <<succ, fail>>                  -> "C18.counts"
         [] OTHER -> "ok"
Clause == CASE R.focus = "C07" -> C07 [] R.focus = "C08" -> C08 [] R.focus = "C09" -> C09 [] R.focus = "C15" -> C15 [] R.focus = "C18" -> C18

Judge == /\ phase = "done" /\ verdict = "?" /\ verdict' = Clause /\ Tally /\ UNCHANGED <<vars, rec>>
TNext == TStep \/ Judge
TSpec == TInit /\ [][TNext]_tvars
Report == verdict \notin {"?", "ok"} => Bad(rec, verdict, [succ |-> succ, fail |-> fail, all |-> all, uns |-> uns, noted |-> noted])
=============================================================================
