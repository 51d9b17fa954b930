-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The tool as a whole.  The user writes a command line, one argument at a *)
(* time (or calls the library with settings); the command line is parsed   *)
(* into settings; the run walks the project, converts its files, writes    *)
(* the log, the tables of the listings and the summary, and returns.       *)
(*                                                                         *)
(* C20: what is converted is a function of the project, the mode and the   *)
(*      packages alone: no presentation setting enters Sites or the counts.*)
(* C24: settings are what the arguments say, whatever their order, with    *)
(*      the last of repeated ones winning; an excluded package is an       *)
(*      ordinary library; a bad command line converts nothing.             *)
(***************************************************************************)
EXTENDS Uses, Json

CONSTANTS Via,         \* "cli" or "lib"
          Opts,        \* names of the options that may be given, as a sequence
          MaxArgs,
          OneSpelling, \* only the long spelling of an option is written
          Projects     \* names of the projects that may be converted

\* ------------------------------------------------------------ projects
\* a file is its path and its statements `y = use`; "head" lists the packages it imports
AllPk == {"torch", "torchvision", "transformers"}
F(p, ks) == [path |-> p, kinds |-> ks, head |-> <<"torch", "torchvision", "transformers">>]
Fh(p, h, ks) == [path |-> p, kinds |-> ks, head |-> h]
Copy(p) == [path |-> p, kinds |-> <<>>, head |-> <<"copy">>]
Req(p) == [path |-> p, kinds |-> <<>>, head |-> <<"req">>]
ProjectOf == [
  single |-> [form |-> "file", files |-> <<F("m.py", <<"abs", "foo", "mabs", "avgp", "tvc", "tv", "tok", "fn">>)>>],
  clean  |-> [form |-> "file", files |-> <<F("m.py", <<"relu", "mview", "tok">>)>>],
  plain  |-> [form |-> "file", files |-> <<Fh("m.py", <<>>, <<"fn", "mabs", "sub">>)>>],
  tvonly |-> [form |-> "file", files |-> <<Fh("m.py", <<"torchvision">>, <<"tvc", "mabs", "tv", "mshar">>)>>],
  dir    |-> [form |-> "dir", files |-> <<F("a.py", <<"abs", "tv", "mtype">>), Copy("data.txt"), Req("requirements.txt"), F("skipme.py", <<"foo", "lin">>),
                                          F("sub/b.py", <<"trf", "tok", "mshar", "eig">>), Fh("sub/c.py", <<"transformers">>, <<"tok", "trf", "mabs">>), Fh("sub/skip/d.py", <<"torch">>, <<"cat", "foo">>)>>],
  empty  |-> [form |-> "dir", files |-> <<Copy("data.txt"), Fh("e.py", <<>>, <<"fn">>)>>],
  many   |-> [form |-> "dir", files |-> <<F("p1/a.py", <<"abs", "foo">>), F("p1/b.py", <<"tvc">>), F("p2/c.py", <<"eig", "mabs", "relu">>), F("p2/skipx.py", <<"load">>), Copy("p3/data.txt")>>]
]

\* ------------------------------------------------------------ command line
Flags == {"show_all_api", "show_unalign_api", "show_unsupport_api", "no_format", "log_markdown", "calculate_speed"}
Values == [out |-> {"<new>", "<deep>"}, exclude |-> {"skip", "skipme", "nothing,skip/", "sub"}, mode |-> {"default", "min", "max"},
           exclude_packages |-> {"torchvision", "transformers", "torch", "torchvision,transformers", "datasets", "nosuch", "torch,torchvision,transformers"},
           log_dir |-> {"<log>", "disable"}, log_level |-> {"WARNING", "INFO", "DEBUG", "LOUD"}, in |-> {"<in>"}]
Long == [out |-> "--out_dir", exclude |-> "--exclude", mode |-> "--mode", exclude_packages |-> "--exclude_packages", log_dir |-> "--log_dir", log_level |-> "--log_level", in |-> "--in_dir"]
Short == [out |-> "-o", exclude |-> "-e", mode |-> "-m", in |-> "-i"]
Spellings(o) == IF o \in Flags THEN {"flag"} ELSE IF OneSpelling THEN {"long"} ELSE IF o \in DOMAIN Short THEN {"long", "eq", "short", "glued"} ELSE {"long", "eq"}
Arg(o, v, s) == [opt |-> o, val |-> v, sp |-> s]
Written(a) == CASE a.sp = "flag" -> <<"--" \o a.opt>> [] a.sp = "long" -> <<Long[a.opt], a.val>> [] a.sp = "eq" -> <<Long[a.opt] \o "=" \o a.val>>
                [] a.sp = "short" -> <<Short[a.opt], a.val>> [] a.sp = "glued" -> <<Short[a.opt] \o a.val>>
RECURSIVE WrittenAll(_)
WrittenAll(s) == IF s = <<>> THEN <<>> ELSE Written(Head(s)) \o WrittenAll(Tail(s))

Defaults == [in |-> "", out |-> "", exclude |-> "", mode |-> "default", exclude_packages |-> "", log_dir |-> "", log_level |-> "INFO",
             show_all_api |-> FALSE, show_unalign_api |-> FALSE, show_unsupport_api |-> FALSE, no_format |-> FALSE, log_markdown |-> FALSE, calculate_speed |-> FALSE]
RECURSIVE Parsed(_, _)
Parsed(s, acc) == IF s = <<>> THEN acc ELSE Parsed(Tail(s), [acc EXCEPT ![Head(s).opt] = IF Head(s).opt \in Flags THEN TRUE ELSE Head(s).val])

\* the packages a list names
Names(v) == CASE v = "" -> {} [] v = "torchvision,transformers" -> {"torchvision", "transformers"} [] v = "torch,torchvision,transformers" -> AllPk [] OTHER -> {v}
Known(p) == p \in AllPk \cup {"datasets"}
\* does a path fall under the exclusion (regular expressions searched in the path)
Under(v, p) == CASE v = "" -> FALSE [] v = "skip" -> p \in {"skipme.py", "sub/skip/d.py", "p2/skipx.py"} [] v = "skipme" -> p = "skipme.py"
                 [] v = "nothing,skip/" -> p = "sub/skip/d.py" [] v = "sub" -> p \in {"sub/b.py", "sub/c.py", "sub/skip/d.py"} [] OTHER -> FALSE

VARIABLES phase, proj, argv, set, usage, at, log, succ, fail, tally, outp, tables
vars == <<phase, proj, argv, set, usage, at, log, succ, fail, tally, outp, tables>>

\* ------------------------------------------------------------ what is converted
PkOf(k) == CASE k \in {"tv", "tvc"} -> "torchvision" [] k \in {"trf", "tok"} -> "transformers" [] K[k].pos = "recv" -> "*" [] k \in {"fn", "sub", "np"} -> "" [] OTHER -> "torch"
HeadSet(f) == {f.head[n] : n \in 1..Len(f.head)}
\* is the use one of an API, given the packages that are not recognised
Ours(f, k, ex) == CASE PkOf(k) = "" -> FALSE
                    [] PkOf(k) = "*" -> "torch" \notin ex /\ HeadSet(f) \ ex # {}   \* members of PyTorch's classes
                    [] OTHER -> PkOf(k) \in HeadSet(f) \ ex
SiteText(f, k, ex, mode) == IF Ours(f, k, ex) THEN Conv(<<k>>, "v", mode) ELSE Src(<<k>>, "v")
SiteMarked(f, k, ex) == Ours(f, k, ex) /\ K[k].vis # ""
Sites(f, ex, mode) == [n \in 1..Len(f.kinds) |-> <<SiteText(f, f.kinds[n], ex, mode), SiteMarked(f, f.kinds[n], ex)>>]
Kept(f, ex, mode) == AllPk \cap IF mode = "min" THEN HeadSet(f) ELSE HeadSet(f) \cap ex    \* imports that stay

\* ------------------------------------------------------------ the run
P == ProjectOf[proj]
IsPy(f) == f.head \notin {<<"copy">>, <<"req">>}
Rank(l) == CASE l = "DEBUG" -> 1 [] l = "INFO" -> 2 [] OTHER -> 3
\* a line of level l is written at level set.log_level
Shows(l) == Rank(l) >= Rank(set.log_level)
Put(s) == log \o s
Line(t, l) == IF Shows(l) THEN <<t>> ELSE <<>>
Inc(bag, x, n) == IF n = 0 THEN bag ELSE IF x \in DOMAIN bag THEN [bag EXCEPT ![x] = @ + n] ELSE bag @@ (x :> n)
Fresh == /\ at = 0 /\ log = <<>> /\ succ = 0 /\ fail = 0 /\ tally = <<>> /\ outp = <<>> /\ tables = {}
Init == /\ phase = "write" /\ proj \in Projects /\ set = Defaults /\ usage = "ok" /\ Fresh
        /\ argv \in IF Via = "lib" THEN {<<Arg("in", "<in>", "set")>>} ELSE {<<>>} \cup {<<Arg("in", "<in>", s)>> : s \in Spellings("in")}
Place(o) == CHOOSE n \in 0..Len(Opts) : IF o = "in" THEN n = 0 ELSE n > 0 /\ Opts[n] = o
\* the user writes
Give == /\ phase = "write" /\ Len(argv) < MaxArgs
        /\ \E n \in 1..Len(Opts) : LET o == Opts[n] IN \E s \in IF Via = "lib" THEN {"set"} ELSE Spellings(o) :
             \E v \in IF o \in Flags THEN {""} ELSE Values[o] :
               /\ Via = "lib" => ~("max" = v \/ "LOUD" = v)           \* checked by the command line only
               /\ Via = "lib" => Place(argv[Len(argv)].opt) < n   \* settings have no order
               /\ argv' = Append(argv, Arg(o, v, s))
        /\ UNCHANGED <<phase, proj, set, usage, at, log, succ, fail, tally, outp, tables>>
\* the tool reads the command line
Bad1(a) == (a.opt = "mode" /\ a.val = "max") \/ (a.opt = "log_level" /\ a.val = "LOUD")
Read == /\ phase = "write"
        /\ LET p == Parsed(argv, Defaults)
               q == [p EXCEPT !.no_format = p.no_format \/ (Via = "cli" /\ p.mode = "min")] IN
           /\ set' = q
           /\ usage' = CASE \E n \in 1..Len(argv) : Bad1(argv[n]) -> "usage"
                         [] \E x \in Names(q.exclude_packages) : ~Known(x) -> "unknown-package"
                         [] q.in = "" -> "no-input"
                         [] OTHER -> "ok"
        /\ phase' = IF usage' = "ok" THEN "banner" ELSE "end"
        /\ UNCHANGED <<proj, argv, at, log, succ, fail, tally, outp, tables>>
Ex == Names(set.exclude_packages)
Banner == /\ phase = "banner" /\ log' = Put(Line("banner", "INFO")) /\ at' = 1 /\ phase' = "files"
          /\ UNCHANGED <<proj, argv, set, usage, succ, fail, tally, outp, tables>>
Cnt(f, c) == Cardinality({n \in 1..Len(f.kinds) : Ours(f, f.kinds[n], Ex) /\ K[f.kinds[n]].cnt = c})
RECURSIVE Count(_, _, _)
Count(f, n, bag) == IF n > Len(f.kinds) THEN bag
                    ELSE Count(f, n + 1, Inc(bag, K[f.kinds[n]].api, IF Ours(f, f.kinds[n], Ex) /\ K[f.kinds[n]].cnt # "n" THEN 1 ELSE 0))
FileDone(f) == outp' = Append(outp, [path |-> f.path, sites |-> Sites(f, Ex, set.mode), kept |-> Kept(f, Ex, set.mode)])
File == /\ phase = "files" /\ at <= Len(P.files)
        /\ LET f == P.files[at] IN
             IF Under(set.exclude, f.path) THEN UNCHANGED <<log, succ, fail, tally, outp>>
             ELSE /\ log' = Put(IF IsPy(f) \/ f.head = <<"req">> THEN Line("start " \o f.path, "INFO") \o Line("finish " \o f.path, "INFO") ELSE Line("copy " \o f.path, "INFO"))
                  /\ succ' = succ + Cnt(f, "s") /\ fail' = fail + Cnt(f, "f") /\ tally' = Count(f, 1, tally) /\ FileDone(f)
        /\ at' = at + 1 /\ UNCHANGED <<phase, proj, argv, set, usage, tables>>
Walked == /\ phase = "files" /\ at > Len(P.files) /\ phase' = "lists" /\ at' = 1
          /\ UNCHANGED <<proj, argv, set, usage, log, succ, fail, tally, outp, tables>>
\* the listings, in this order
Aligned == {"torch.abs", "torch.nn.functional.relu", "torch.cat", "torch.Tensor.abs", "torch.Tensor.view", "torch.float32"}
Tors == {a \in DOMAIN tally : a \notin {"torchvision.zed.foo", "transformers.Foo", "torchvision.transforms.Compose", "transformers.AddedToken"}}
Uns == {a \in DOMAIN tally : \E k \in KindSet : K[k].api = a /\ K[k].cnt = "f"}
Sub(bag, D) == {<<a, bag[a]>> : a \in D}
Star(a) == IF a = "torch.Tensor.is_shared" THEN "*.is_shared" ELSE a
Listing == <<[opt |-> "show_all_api", name |-> "all", rows |-> Sub(tally, DOMAIN tally)],
             [opt |-> "show_unalign_api", name |-> "unalign", rows |-> Sub(tally, Tors \ Aligned)],
             [opt |-> "show_unsupport_api", name |-> "unsupport", rows |-> {<<Star(a), tally[a]>> : a \in Uns}]>>
List == /\ phase = "lists" /\ at <= 3
        /\ LET l == Listing[at] IN
             IF ~set[l.opt] THEN UNCHANGED <<log, tables>>
             ELSE /\ log' = Put(Line("list " \o l.name, "INFO"))
                  /\ tables' = IF l.rows = {} THEN tables ELSE tables \cup {[name |-> l.name, rows |-> l.rows]}
        /\ at' = at + 1 /\ UNCHANGED <<phase, proj, argv, set, usage, succ, fail, tally, outp>>
Summary == /\ phase = "lists" /\ at > 3
           /\ log' = Put(Line(IF set.log_markdown THEN "markdown" ELSE "summary", "WARNING") \o (IF fail > 0 THEN Line("hint", "WARNING") ELSE <<>>)
                         \o (IF set.calculate_speed THEN Line("speed", "INFO") ELSE <<>>))
           /\ phase' = "end" /\ UNCHANGED <<proj, argv, set, usage, at, succ, fail, tally, outp, tables>>
Next == Give \/ Read \/ Banner \/ File \/ Walked \/ List \/ Summary
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
Presentation == {"log_dir", "log_level", "log_markdown", "show_all_api", "show_unalign_api", "show_unsupport_api", "no_format", "calculate_speed"}
Plainly == [set EXCEPT !.log_dir = "", !.log_level = "INFO", !.log_markdown = FALSE, !.show_all_api = FALSE, !.show_unalign_api = FALSE, !.show_unsupport_api = FALSE,
                       !.no_format = FALSE, !.calculate_speed = FALSE]
\* C20: result computed from the settings without the presentation ones
WantFiles(s) == LET keep(f) == ~Under(s.exclude, f.path) IN
                [n \in 1..Len(SelectSeq(P.files, keep)) |->
                   LET f == SelectSeq(P.files, keep)[n] IN
                                [path |-> f.path, sites |-> Sites(f, Names(s.exclude_packages), s.mode), kept |-> Kept(f, Names(s.exclude_packages), s.mode)]]
PresentationIsInert == (phase = "end" /\ usage = "ok") => outp = WantFiles(Plainly)
\* the summary is always written, in exactly one form, whatever the level
Said(t) == \E n \in 1..Len(log) : log[n] = t
SummaryOnce == (phase = "end" /\ usage = "ok") => (Said("summary") # Said("markdown"))
\* nothing is converted on a bad command line
NothingOnError == usage # "ok" => outp = <<>> /\ log = <<>>
\* C24: an excluded package is never counted nor marked; what is not excluded is converted
Uncounted == phase = "end" => \A a \in DOMAIN tally : \A k \in KindSet : (K[k].api = a /\ PkOf(k) \in AllPk) => PkOf(k) \notin Ex
Balanced == LET S == {tally[a] : a \in DOMAIN tally} IN phase = "end" => (S = {} <=> succ + fail = 0)
\* the order of different options does not matter, the last of equal ones wins
Perm == phase # "write" => \A o \in DOMAIN Defaults \ {"no_format"} :
          LET I == {n \in 1..Len(argv) : argv[n].opt = o} IN
          set[o] = IF I = {} THEN Defaults[o] ELSE IF o \in Flags THEN TRUE ELSE argv[CHOOSE n \in I : \A m \in I : m <= n].val
EmitDone == phase = "end" => PrintT("@CASE " \o ToJson([proj |-> proj, form |-> P.form, files |-> [n \in 1..Len(P.files) |->
       [path |-> P.files[n].path, head |-> P.files[n].head, src |-> [m \in 1..Len(P.files[n].kinds) |-> Src(<<P.files[n].kinds[m]>>, "v")]]],
     argv |-> argv, written |-> IF Via = "lib" THEN <<>> ELSE WrittenAll(argv), set |-> set, usage |-> usage]))
=============================================================================
