------------------------------ MODULE CustomOp ------------------------------
(***************************************************************************)
(* C++ extensions and their wrapper classes, across the files of a         *)
(* project (C25).  The environment writes files, in the order of the walk: *)
(*   setup   builds an extension (good: with PyTorch's BuildExtension)     *)
(*   imp     import e [as a]                load   a = load(name=..)       *)
(*   wrap    an autograd function class that uses the extension under its  *)
(*           local name (n times); plain: one that uses none               *)
(*   direct  the extension used outside of any class                       *)
(*   from    from <module> import cls [as a]                               *)
(*   use     L.apply in a statement, form = how                            *)
(* The tool converts file by file.  It learns the extensions that a setup  *)
(* builds and the wrapper classes of known extensions, and it forgets them *)
(* when the run ends.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Exts, Classes, MinFiles, MaxFiles, MaxItems, Shapes, Hows, Modes, Runs

It(t, e, l, c, n, h) == [t |-> t, e |-> e, l |-> l, c |-> c, n |-> n, h |-> h]
Setup(e)   == It("setup", e, "", "", 1, "good")
Setup0(e)  == It("setup", e, "", "", 1, "other")
Imp(e, l)  == It("imp", e, l, "", 0, "")
Load(e, l) == It("load", e, l, "", 0, "")
Wrap(l, c, n) == It("wrap", "", l, c, n, "")
Plain(c)   == It("plain", "", "", c, 0, "")
Direct(l)  == It("direct", "", l, "", 0, "")
From(c, l) == It("from", "", l, c, 0, "")
Use(l, h)  == It("use", "", l, "", IF h = "twice" THEN 2 ELSE 1, h)

\* what a file may hold, item by item (imports before the rest)
Locals(f) == {f[n].l : n \in {m \in 1..Len(f) : f[m].t \in {"imp", "load"}}}
Given(f) == {f[n].l : n \in {m \in 1..Len(f) : f[m].t = "from"}} \cup {f[n].c : n \in {m \in 1..Len(f) : f[m].t \in {"wrap", "plain"}}}
Alias(e) == CASE e = "ext_b" -> "bb" [] OTHER -> "aa"
ClsAlias(c) == CASE c = "Fn1" -> "G1" [] c \in {"Fn2", "MyFn1"} -> "G2" [] OTHER -> "G3"

VARIABLES files, mode, cur, phase,    \* the project being written
          at, exts, wraps, out, succ, fail, unss, run
vars == <<files, mode, cur, phase, at, exts, wraps, out, succ, fail, unss, run>>
Known == {w.c : w \in wraps}
Fresh == at = 0 /\ exts = {} /\ wraps = {} /\ out = <<>> /\ succ = 0 /\ fail = 0 /\ unss = <<>>
Init == files = <<>> /\ mode \in Modes /\ cur = <<>> /\ phase = "write" /\ run = 1 /\ Fresh

\* --- the environment writes
DefinedIn(fs, c) == \E n \in 1..Len(fs) : \E m \in 1..Len(fs[n]) : fs[n][m].t \in {"wrap", "plain"} /\ fs[n][m].c = c
Item == {Setup(e) : e \in Exts} \cup {Setup0(e) : e \in {x \in Exts : "setup0" \in Shapes}} \cup {Imp(e, e) : e \in Exts} \cup {Imp(e, Alias(e)) : e \in Exts}
        \cup {Load(e, "l_" \o e) : e \in Exts} \cup {Wrap(l, c, n) : l \in Locals(cur), c \in Classes, n \in {1, 2}}
        \cup {Plain(c) : c \in Classes} \cup {Direct(l) : l \in Locals(cur)}
        \cup {From(c, c) : c \in Classes} \cup {From(c, ClsAlias(c)) : c \in Classes}
        \cup {Use(l, h) : l \in Given(cur) \cup (IF \E n \in 1..Len(cur) : cur[n].t \in {"imp", "load"} THEN Classes ELSE {}), h \in Hows}
Fitting(i) ==
  LET has(t) == \E n \in 1..Len(cur) : cur[n].t = t IN
  CASE i.t = "setup" -> ~has("setup") /\ cur = <<>>
    [] i.t \in {"imp", "load"} -> ~has("wrap") /\ ~has("direct") /\ ~has("use") /\ ~has("plain") /\ ~has("from") /\ ~\E n \in 1..Len(cur) : cur[n].t \in {"imp", "load"} /\ cur[n].e = i.e
    [] i.t \in {"wrap", "plain"} -> ~DefinedIn(files, i.c) /\ i.c \notin Given(cur)
                  /\ ~\E n \in 1..Len(cur) : cur[n].t = "from" /\ cur[n].c = i.c
    [] i.t = "from" -> DefinedIn(files, i.c) /\ ~has("use") /\ ~\E n \in 1..Len(cur) : cur[n].t = "from" /\ cur[n].c = i.c
    [] i.t = "use" -> ~DefinedIn(files, i.l)  \* its own class, perhaps further down, or an imported one
                       \/ i.l \in Given(cur)
    [] i.t = "direct" -> ~has("direct")
    [] OTHER -> TRUE
\* a used class must be there in the end
Closed(f) == \A n \in 1..Len(f) : f[n].t = "use" => f[n].l \in Given(f)
Write == /\ phase = "write" /\ Len(cur) < MaxItems
         /\ \E i \in Item : i.t \in Shapes /\ Fitting(i) /\ cur' = Append(cur, i)
         /\ UNCHANGED <<files, mode, phase, at, exts, wraps, out, succ, fail, unss, run>>
Close == /\ phase = "write" /\ cur # <<>> /\ Closed(cur) /\ Len(files) < MaxFiles
         /\ files' = Append(files, cur) /\ cur' = <<>>
         /\ UNCHANGED <<mode, phase, at, exts, wraps, out, succ, fail, unss, run>>
Go == /\ phase = "write" /\ cur = <<>> /\ Len(files) >= MinFiles
      /\ phase' = "convert" /\ at' = 1 /\ UNCHANGED <<files, mode, cur, exts, wraps, out, succ, fail, unss, run>>

\* --- the tool converts file `at'
F == files[at]
Idx(t) == {n \in 1..Len(F) : F[n].t = t}
\* extensions known when the file is searched for wrappers
\* (minimal mode leaves BuildExtension and the class autograd.Function as they are, and the wrappers with them)
Exts1 == IF mode = "min" THEN {} ELSE exts \cup {F[n].e : n \in {m \in Idx("setup") : F[m].h = "good"}}
\* what the local name of an extension stands for
Bound(l) == LET I == {n \in Idx("imp") \cup Idx("load") : F[n].l = l} IN
            IF I = {} THEN [t |-> "", e |-> ""] ELSE LET n == CHOOSE n \in I : TRUE IN [t |-> F[n].t, e |-> F[n].e]
Tied(l) == (Bound(l).t = "load" /\ mode # "min") \/ (Bound(l).t = "imp" /\ Bound(l).e \in Exts1)
NewWraps == {[c |-> F[n].c, how |-> Bound(F[n].l).t, e |-> IF Bound(F[n].l).t = "load" THEN F[n].l ELSE Bound(F[n].l).e] : n \in {m \in Idx("wrap") : Tied(F[m].l)}}
Wraps1 == wraps \cup NewWraps
WrapOf(c) == CHOOSE w \in Wraps1 : w.c = c
IsWrap(c) == \E w \in Wraps1 : w.c = c
\* the class a local name stands for
ClassOf(l) == LET I == {n \in Idx("from") : F[n].l = l} IN IF I = {} THEN l ELSE F[CHOOSE n \in I : TRUE].c
Replaced(n) == F[n].t = "use" /\ IsWrap(ClassOf(F[n].l))
NewName(l) == LET w == WrapOf(ClassOf(l)) IN IF w.how = "load" THEN w.e ELSE w.e \o ".custom_op_xxx"
UseText(h, s) == CASE h = "call" -> "y = " \o s \o "(v)" [] h = "nest" -> "y = " \o (IF mode = "min" THEN "torch" ELSE "paddle") \o ".abs(" \o s \o "(v))" [] h = "ref" -> "y = " \o s
                   [] h = "def" -> "def g(v):\n    return " \o s \o "(v)" [] h = "twice" -> "y = " \o s \o "(v) + " \o s \o "(w)" [] h = "arg" -> "fn(" \o s \o ", k=1)"
Sites == [n \in 1..Len(F) |-> IF F[n].t = "use" THEN <<UseText(F[n].h, IF Replaced(n) THEN NewName(F[n].l) ELSE F[n].l \o ".apply"), Replaced(n)>>
                               ELSE IF F[n].t = "direct" THEN <<"y = " \o F[n].l \o ".info(v)", FALSE>> ELSE <<"", FALSE>>]
KeptClasses == {F[n].c : n \in {m \in Idx("wrap") \cup Idx("plain") : ~IsWrap(F[m].c)}}
\* names used outside of the wrappers of known extensions
StillUsed(l) == (\E n \in Idx("direct") : F[n].l = l) \/ (\E n \in Idx("wrap") : F[n].l = l /\ ~IsWrap(F[n].c))
KeptImports == {<<F[n].e, F[n].l>> : n \in {m \in Idx("imp") : F[m].e \notin Exts1 \/ StillUsed(F[m].l)}}
Added == {<<WrapOf(F[n].c).e, WrapOf(F[n].c).e>> : n \in {m \in Idx("from") : IsWrap(F[m].c) /\ WrapOf(F[m].c).how = "imp"}}
         \cup {<<WrapOf(ClassOf(F[n].l)).e, WrapOf(ClassOf(F[n].l)).e>> : n \in {m \in Idx("use") : Replaced(m) /\ WrapOf(ClassOf(F[m].l)).how = "imp"}}
Froms == {IF IsWrap(F[n].c) THEN <<WrapOf(F[n].c).e, WrapOf(F[n].c).e>> ELSE <<F[n].c, F[n].l>> : n \in {m \in Idx("from") : ~(IsWrap(F[m].c) /\ WrapOf(F[m].c).how = "imp")}}
\* --- counts: the plain API uses of the file, the extension's uses in wrappers, the uses of wrappers
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)
\* a call of apply is first of all one of a method that torch.nn.Module has, unless its class comes from elsewhere
Calls(h) == CASE h \in {"call", "def", "nest"} -> 1 [] h = "twice" -> 2 [] OTHER -> 0
Imported(l) == \E n \in Idx("from") : F[n].l = l
Api(n) == CASE F[n].t = "setup" -> IF F[n].h = "good" THEN (IF mode = "min" THEN 2 ELSE 3) ELSE 1   \* setup, the extension, BuildExtension
            [] F[n].t = "load" -> 1 [] F[n].t \in {"wrap", "plain"} -> 1
            [] F[n].t = "use" -> (IF F[n].h = "nest" THEN 1 ELSE 0) + (IF Imported(F[n].l) THEN 0 ELSE Calls(F[n].h)) [] OTHER -> 0
Wrapped(n) == IF F[n].t = "wrap" /\ Tied(F[n].l) THEN F[n].n ELSE 0
Missed(n) == IF Replaced(n) THEN F[n].n ELSE 0
Inc(bag, x, k) == IF k = 0 THEN bag ELSE IF x \in DOMAIN bag THEN [bag EXCEPT ![x] = @ + k] ELSE bag @@ (x :> k)
RECURSIVE ListUns(_, _)
ListUns(n, bag) == IF n > Len(F) THEN bag ELSE ListUns(n + 1, IF F[n].t = "use" THEN Inc(bag, F[n].l \o ".apply", Missed(n)) ELSE bag)
File == /\ phase = "convert" /\ at <= Len(files)
        /\ out' = Append(out, [sites |-> Sites, classes |-> KeptClasses, imports |-> KeptImports \cup Added, froms |-> Froms])
        /\ succ' = succ + Sum(1..Len(F), [n \in 1..Len(F) |-> Api(n) + Wrapped(n)])
        /\ fail' = fail + Sum(1..Len(F), [n \in 1..Len(F) |-> Missed(n)])
        /\ unss' = ListUns(1, unss)
        /\ exts' = Exts1 /\ wraps' = Wraps1 /\ at' = at + 1
        /\ UNCHANGED <<files, mode, cur, phase, run>>
Done == /\ phase = "convert" /\ at > Len(files) /\ phase' = "done"
        /\ UNCHANGED <<files, mode, cur, at, exts, wraps, out, succ, fail, unss, run>>
\* the library's user converts another project with a new converter: nothing is remembered
Again == /\ phase = "done" /\ run < Runs /\ run' = run + 1 /\ phase' = "write" /\ UNCHANGED mode /\ files' = <<>> /\ cur' = <<>>
         /\ at' = 0 /\ exts' = {} /\ wraps' = {} /\ out' = <<>> /\ succ' = 0 /\ fail' = 0 /\ unss' = <<>>
Next == Write \/ Close \/ Go \/ File \/ Done \/ Again
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
Files(t, n) == {m \in 1..Len(files[n]) : files[n][m].t = t}
\* no file converted after its wrapper names the wrapper any more
NoDangling == \A n \in 1..Len(out) : \A k \in 1..n : \A m \in Files("wrap", k) :
   LET c == files[k][m].c IN
   (c \notin out[k].classes) =>
      /\ ~\E x \in out[n].froms : x[1] = c
      /\ \A u \in Files("use", n) : out[n].sites[u][2] \/ files[n][u].l # c \/ (\E z \in Files("plain", n) : files[n][z].c = c)
\* a removed wrapper was one of a known extension; plain classes stay
KeepsOthers == \A n \in 1..Len(out) : {files[n][m].c : m \in Files("plain", n)} \subseteq out[n].classes
\* a replaced use finds what it refers to: an import of the extension, the loaded extension, or its definition
Bindable == \A n \in 1..Len(out) : \A u \in Files("use", n) : out[n].sites[u][2] =>
   \/ \E x \in out[n].imports : \E w \in wraps : w.e = x[1] /\ x[2] = w.e
   \/ \E x \in out[n].froms : \E w \in wraps : w.e = x[1] /\ w.how = "load"
   \/ \E m \in Files("load", n) : TRUE
\* an extension's name is used only where it is bound
DirectBound == \A n \in 1..Len(out) : \A d \in Files("direct", n) : \E m \in Files("imp", n) \cup Files("load", n) :
   files[n][m].l = files[n][d].l /\ (files[n][m].t = "load" \/ <<files[n][m].e, files[n][m].l>> \in out[n].imports)
\* the books
Marked == LET D == {p \in UNION {{n} \X (1..Len(files[n])) : n \in 1..Len(out)} : files[p[1]][p[2]].t = "use" /\ out[p[1]].sites[p[2]][2]} IN
          Sum(D, [p \in D |-> files[p[1]][p[2]].n])
Booked == fail = Marked
EmitDone == phase = "done" => PrintT("@CASE " \o ToJson([mode |-> mode, files |-> files]))
=============================================================================
