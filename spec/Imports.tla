------------------------------ MODULE Imports ------------------------------
(***************************************************************************)
(* Imports of a file and the uses spelled through them.                    *)
(*                                                                         *)
(* The environment writes import statements (each in some place of the     *)
(* file) and uses of APIs, each spelled through a name one of the imports  *)
(* binds.  The converter then walks the imported names one by one: it      *)
(* keeps, removes or replaces each, remembers what the removed ones stood  *)
(* for, resolves every use to the full name of its API, and finally adds   *)
(* the imports the converted file needs.                                   *)
(*                                                                         *)
(* An imported name is [form, mod, name, as, rel]; paths are sequences.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

\* recognised PyTorch packages and what replaces their import
Pkg == ("torch" :> "paddle") @@ ("torchvision" :> "paddle") @@ ("transformers" :> "paddleformers") @@ ("torchaudio" :> "paddlespeech")
       @@ ("datasets" :> "paddle") @@ ("timm" :> "paddle") @@ ("mmcv" :> "paddle") @@ ("diffusers" :> "paddle") @@ ("flash_attn" :> "paddle")
\* imported as they are, but some of their names are converted
May == {"os", "einops", "setuptools"}
\* replaced as a whole
Swap == ("audiotools" :> <<"paddlespeech", "audiotools">>)

A(path, args, out, cnt) == [path |-> path, args |-> args, out |-> out, cnt |-> cnt]
\* out = "" : stays as it is, under its full name; cnt: converted / unsupported / not an API
Apis == [
  abs   |-> A(<<"torch", "abs">>, "(v)", "paddle.abs(v)", "s"),
  relu  |-> A(<<"torch", "nn", "functional", "relu">>, "(v)", "paddle.nn.functional.relu(v)", "s"),
  avgp  |-> A(<<"torch", "nn", "functional", "avg_pool1d">>, "(v, 2)", "paddle.nn.functional.avg_pool1d(x=v, kernel_size=2, exclusive=False)", "s"),
  lin   |-> A(<<"torch", "nn", "Linear">>, "(v, 3)", "paddle.compat.nn.Linear(v, 3)", "s"),
  sgd   |-> A(<<"torch", "optim", "SGD">>, "(v, lr=0.1)", "paddle.optim.SGD(v, lr=0.1)", "s"),
  datal |-> A(<<"torch", "utils", "data", "DataLoader">>, "(v)", "paddle.utils.data.DataLoader(v)", "s"),
  load  |-> A(<<"torch", "load">>, "(v)", "paddle.load(path=str(v))", "s"),
  foo   |-> A(<<"torch", "foo_bar">>, "(v)", "", "f"),
  fook  |-> A(<<"torch", "zed", "foo_kw">>, "(1, k=v)", "", "f"),
  tv    |-> A(<<"torchvision", "zed", "foo">>, "(v)", "", "f"),
  trf   |-> A(<<"transformers", "Foo">>, "(v)", "", "f"),
  aud   |-> A(<<"torchaudio", "zed", "foo">>, "(v)", "", "f"),
  dsf   |-> A(<<"datasets", "load_foo">>, "(v)", "", "f"),
  tim   |-> A(<<"timm", "create_foo">>, "(v)", "", "f"),
  f32   |-> A(<<"torch", "float32">>, "", "paddle.float32", "s"),
  lincls |-> A(<<"torch", "nn", "Linear">>, "", "paddle.compat.nn.Linear", "s"),
  absref |-> A(<<"torch", "abs">>, "", "paddle.abs", "s"),
  fooref |-> A(<<"torch", "foo_attr">>, "", "", "f"),
  dev   |-> A(<<"torch", "device">>, "('cpu')", "paddle.device('cpu')", "s"),
  envw  |-> A(<<"os", "environ", "get">>, "('WORLD_SIZE')", "paddle.distributed.get_world_size()", "s"),
  osj   |-> A(<<"os", "path", "join">>, "(v, 'a')", "", "n"),
  osfn  |-> A(<<"os", "getcwd">>, "()", "", "n"),
  ein   |-> A(<<"einops", "layers", "torch", "Rearrange">>, "(v)", "einops.layers.paddle.Rearrange(v)", "s"),
  einr  |-> A(<<"einops", "rearrange">>, "(v, 'a b')", "", "n"),
  npabs |-> A(<<"numpy", "abs">>, "(v)", "", "n"),
  npt   |-> A(<<"numpy", "linalg", "type">>, "(v)", "", "n"),
  spy   |-> A(<<"scipy", "ndimage", "median">>, "(v)", "", "n"),
  tools |-> A(<<"audiotools", "ml", "abs">>, "(v)", "", "n"),
  mytl  |-> A(<<"myaudiotools", "ml", "abs">>, "(v)", "", "n"),
  pdl   |-> A(<<"paddle", "abs">>, "(v)", "", "n"),
  pdn   |-> A(<<"paddle", "nn", "functional", "relu">>, "(v)", "", "n"),
  tlike |-> A(<<"torchlike", "nn", "Linear">>, "(v)", "", "n"),
  rel1  |-> A(<<".", "zoo", "abs">>, "(v)", "", "n"),
  rel2  |-> A(<<".", "torch", "nn", "Linear">>, "(v)", "", "n"),
  rel3  |-> A(<<"..", "datasets", "timm", "type">>, "(v)", "", "n"),
  locd  |-> A(<<"datasets", "local_a", "type">>, "(v)", "", "n"),
  loct  |-> A(<<"torch_local", "abs">>, "(v)", "", "n"),
  locs  |-> A(<<"timm", "abs">>, "(v)", "", "n")
]
\* the project: what lies next to the file
\* ("nsdatasets": the same without an __init__.py)
Kind(l) == IF l = "nsdatasets" THEN "datasets" ELSE l
LocalPaths(loc) == IF Kind(loc) = "datasets" THEN {<<"datasets">>, <<"datasets", "local_a">>, <<"torch_local">>}
                   ELSE IF loc = "timm" THEN {<<"timm">>, <<"torch_local">>} ELSE {<<"torch_local">>}
NeedsLocal(a) == CASE a = "locd" -> "datasets" [] a = "locs" -> "timm" [] OTHER -> ""
BarsLocal(a) == CASE a = "dsf" -> "datasets" [] a = "tim" -> "timm" [] OTHER -> ""

CONSTANTS ApiSet, PlaceSet, MaxStmts, MaxNames, MaxUses, CtxSet, Locals, AsNames

VARIABLES loc, stmts, uses, phase, n, m, bind, kept, pkgs, mays, out
vars == <<loc, stmts, uses, phase, n, m, bind, kept, pkgs, mays, out>>

Name(form, mod, name, as) == [form |-> form, mod |-> mod, name |-> name, as |-> as]
\* the ways to import something that leads to a path
Rel(p) == p[1] \in {".", ".."}
Ways(p) == (IF Rel(p) THEN {} ELSE
            {Name("import", SubSeq(p, 1, k), "", "") : k \in 1..(Len(p) - 1)}
      \cup {Name("import", SubSeq(p, 1, k), "", "*") : k \in 1..(Len(p) - 1)})
      \cup {Name("from", SubSeq(p, 1, k), p[k + 1], "") : k \in 1..(Len(p) - 1)}
      \cup {Name("from", SubSeq(p, 1, k), p[k + 1], "*") : k \in 1..(Len(p) - 1)}
WithAs(w, a) == IF w.as = "*" THEN [w EXCEPT !.as = a] ELSE w
Local(w) == IF w.as # "" THEN w.as ELSE IF w.form = "import" THEN w.mod[1] ELSE w.name
Stands(w) == IF w.form = "import" THEN (IF w.as # "" THEN w.mod ELSE <<w.mod[1]>>) ELSE w.mod \o <<w.name>>
Spelling(p, w) == <<Local(w)>> \o SubSeq(p, Len(Stands(w)) + 1, Len(p))

Init == /\ loc \in Locals /\ stmts = <<>> /\ uses = <<>> /\ phase = "stmt" /\ n = 1 /\ m = 1
        /\ bind = <<>> /\ kept = <<>> /\ pkgs = {} /\ mays = {} /\ out = <<>>

AllNames == UNION {{stmts[s].names[x] : x \in 1..Len(stmts[s].names)} : s \in 1..Len(stmts)}
\* a name may be imported again only for the same thing
Free(w) == (Local(w) \in DOMAIN Pkg \cup May => Stands(w) = <<Local(w)>>) /\ \A x \in AllNames : Local(x) = Local(w) => Stands(x) = Stands(w)
PathKeeps(w) == w.mod \in LocalPaths(loc)
Allowed(a) == (NeedsLocal(a) # "" => Kind(loc) = NeedsLocal(a)) /\ (BarsLocal(a) # "" => Kind(loc) # BarsLocal(a))

\* --- the environment
NewStmt == /\ phase = "stmt" /\ Len(stmts) < MaxStmts
           /\ \E pl \in PlaceSet : stmts' = Append(stmts, [place |-> pl, names |-> <<>>])
           /\ phase' = "name" /\ UNCHANGED <<loc, uses, n, m, bind, kept, pkgs, mays, out>>
AddName == /\ phase \in {"name", "names"} /\ Len(stmts[Len(stmts)].names) < MaxNames
           /\ LET st == stmts[Len(stmts)] IN
              \E a \in ApiSet : \E w0 \in Ways(Apis[a].path) :
                LET w == WithAs(w0, AsNames[Cardinality(AllNames) + 1]) IN
                /\ Allowed(a) /\ Free(w)
                \* a package and a project module of the same name are not mixed
                /\ NeedsLocal(a) # "" => PathKeeps(w)
                /\ IF st.names = <<>> THEN TRUE
                   ELSE /\ w.form = st.names[1].form
                        /\ (w.form = "from" => w.mod = st.names[1].mod)
                        /\ w \notin {st.names[x] : x \in 1..Len(st.names)}
                /\ stmts' = [stmts EXCEPT ![Len(stmts)].names = Append(@, w)]
                /\ IF Len(uses) < MaxUses THEN uses' = Append(uses, [api |-> a, via |-> w, place |-> st.place, ctx |-> "?"]) /\ phase' = "ctx"
                   ELSE UNCHANGED uses /\ phase' = "names"
           /\ UNCHANGED <<loc, n, m, bind, kept, pkgs, mays, out>>
PickCtx == /\ phase = "ctx" /\ \E c \in CtxSet : uses' = [uses EXCEPT ![Len(uses)].ctx = c]
           /\ phase' = "names" /\ UNCHANGED <<loc, stmts, n, m, bind, kept, pkgs, mays, out>>
EndStmt == /\ phase = "names" /\ phase' = IF Len(stmts) = MaxStmts THEN "go" ELSE "stmt"
           /\ UNCHANGED <<loc, stmts, uses, n, m, bind, kept, pkgs, mays, out>>

\* --- the converter
Fate(w) == CASE w.mod \in LocalPaths(loc)  -> "keep"
             [] w.mod[1] \in DOMAIN Pkg    -> "gone"
             [] w.mod[1] \in May           -> "gone"
             [] w.mod[1] \in DOMAIN Swap   -> "swap"
             [] OTHER                      -> "keep"
Swapped(w) == LET root == w.mod[1] full == Swap[root] \o Tail(w.mod) IN
              CASE w.form = "from" -> [w EXCEPT !.mod = full]
                [] w.as # ""       -> [w EXCEPT !.mod = full]
                [] OTHER           -> [w EXCEPT !.mod = Swap[root], !.as = root]
Import == /\ phase = "go" /\ n <= Len(stmts)
          /\ LET st == stmts[n] w == st.names[m] IN
             /\ CASE Fate(w) = "keep" -> kept' = Append(kept, [place |-> st.place, w |-> w]) /\ UNCHANGED <<bind, pkgs, mays>>
                  [] Fate(w) = "swap" -> kept' = Append(kept, [place |-> st.place, w |-> Swapped(w)]) /\ UNCHANGED <<bind, pkgs, mays>>
                  [] OTHER -> /\ bind' = (Local(w) :> Stands(w)) @@ bind
                              /\ UNCHANGED kept
                              /\ IF w.mod[1] \in May THEN mays' = mays \cup {w.mod[1]} /\ UNCHANGED pkgs
                                 ELSE pkgs' = pkgs \cup {w.mod[1]} /\ UNCHANGED mays
             /\ IF m < Len(st.names) THEN m' = m + 1 /\ n' = n ELSE m' = 1 /\ n' = n + 1
          /\ UNCHANGED <<loc, stmts, uses, phase, out>>
Begin2 == /\ phase = "go" /\ n > Len(stmts) /\ phase' = "resolve" /\ n' = 1 /\ m' = 1
          /\ UNCHANGED <<loc, stmts, uses, bind, kept, pkgs, mays, out>>
\* what a spelled name stands for, after the imports were read
Resolved(sp) == IF sp[1] \in DOMAIN bind THEN bind[sp[1]] \o Tail(sp) ELSE sp
RECURSIVE Dot(_)
Dot(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o (IF Rel(p) THEN "" ELSE ".") \o Dot(Tail(p))
\* names of the packages are converted only in a file that imports PyTorch
ConvOf(u) == LET a == Apis[u.api] sp == Spelling(a.path, u.via) r == Resolved(sp) IN
             IF r = a.path /\ a.out # "" /\ pkgs # {} THEN a.out ELSE Dot(r) \o a.args
Resolve == /\ phase = "resolve" /\ n <= Len(uses)
           /\ out' = Append(out, ConvOf(uses[n]))
           /\ n' = n + 1 /\ UNCHANGED <<loc, stmts, uses, phase, m, bind, kept, pkgs, mays>>
Finish == /\ phase = "resolve" /\ n > Len(uses) /\ phase' = "done"
          /\ UNCHANGED <<loc, stmts, uses, n, m, bind, kept, pkgs, mays, out>>

Next == NewStmt \/ AddName \/ PickCtx \/ EndStmt \/ Import \/ Begin2 \/ Resolve \/ Finish
Spec == Init /\ [][Next]_vars

\* what the code of a converted use refers to
OutRoot(a) == IF a = "ein" THEN "einops" ELSE "paddle"
Converted(u) == /\ Apis[u.api].out # "" /\ pkgs # {}
                /\ LET sp == Spelling(Apis[u.api].path, u.via) IN Resolved(sp) = Apis[u.api].path /\ Fate(u.via) = "gone"
Header == {Pkg[p] : p \in pkgs} \cup mays \cup {OutRoot(uses[x].api) : x \in {y \in 1..Len(uses) : Converted(uses[y])}}
\* --- what a binding means in the converted program: names bound by kept imports, or by the header
BoundAfter == {Local(kept[x].w) : x \in 1..Len(kept)} \cup Header
RootOf(u) == LET r == Resolved(Spelling(Apis[u.api].path, u.via)) IN r[1]

\* C10: whatever the spelling, a removed import leaves the full name of the API
SpellingFree == phase = "done" => \A x \in 1..Len(uses) :
    LET u == uses[x] IN Fate(u.via) = "gone" => Resolved(Spelling(Apis[u.api].path, u.via)) = Apis[u.api].path
\* C11: every imported name is kept, replaced, or stands for a package of the header
NothingLost == phase = "done" => \A s \in 1..Len(stmts) : \A x \in 1..Len(stmts[s].names) :
    LET w == stmts[s].names[x] IN
    \/ \E q \in 1..Len(kept) : kept[q].place = stmts[s].place /\ Local(kept[q].w) = Local(w)
    \/ Local(w) \in DOMAIN bind /\ bind[Local(w)] = Stands(w) /\ (Pkg @@ [z \in May |-> z])[w.mod[1]] \in Header
\* C12: every root name of the converted uses is bound, or belongs to a marked use
NoDangling == phase = "done" => \A x \in 1..Len(uses) :
    LET u == uses[x] IN
    \/ Converted(u) /\ OutRoot(u.api) \in BoundAfter
    \/ RootOf(u) \in BoundAfter
    \/ Apis[u.api].cnt = "f"

EmitDone == (phase = "done") => PrintT("@CASE " \o ToJson([loc |-> loc, stmts |-> stmts,
     uses |-> [x \in 1..Len(uses) |-> [u \in {"api", "place", "ctx", "via"} |-> uses[x][u]]],
     src |-> [x \in 1..Len(uses) |-> Dot(Spelling(Apis[uses[x].api].path, uses[x].via)) \o Apis[uses[x].api].args],
     exp |-> out]))
=============================================================================
