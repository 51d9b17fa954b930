------------------------------ MODULE Project ------------------------------
(***************************************************************************)
(* A conversion run over a project: the walk over the input tree, which    *)
(* entries are left out, what each entry becomes, and what happens when an *)
(* entry cannot be converted.                                              *)
(*                                                                         *)
(* The tree has numbered slots.  Slots 1,2,3 lie in the top directory, 4   *)
(* and 5 below slot 3 and 6 below slot 5 (when 3 and 5 are directories).   *)
(* Each slot holds a kind of entry.  A path is the sequence of slots       *)
(* leading to an entry.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds1,      \* kinds slots 1,2 may hold
          Kinds3,      \* kinds slot 3 may hold
          Kinds4,      \* kinds slot 4 may hold
          Kinds5,      \* kinds slot 5 may hold
          Kinds6,      \* kinds slot 6 may hold
          Pats,        \* exclusion option values
          Places       \* output places

VARIABLES tree,     \* slot -> kind
          pat,      \* exclusion option
          place,    \* where the output goes
          phase,    \* "tree", "opts", "place", "refuse", "walk", "done"
          todo,     \* entries still to be visited (paths), in walk order
          out,      \* set of [path, what] already written
          opened,   \* paths whose content was read
          err       \* the run ended in an error

vars == <<tree, pat, place, phase, todo, out, opened, err>>

Slots == 1..6
Parent == <<0, 0, 0, 3, 3, 5>>
Children(s) == {c \in Slots : Parent[c] = s}

(* --- what the kinds mean ------------------------------------------------*)
DirKinds   == {"dir", "hdir", "pycache", "dirlink", "dirpy", "edir"}
Hidden     == {"hpy", "hdir", "hbin"}
PyKinds    == {"py", "pyplain", "pyempty", "hpy", "pylink", "pyhelp", "pybad", "pyenc", "pynoread", "pycrlf", "pynul", "pycook", "pydeep"}
ReqKinds   == {"req", "devreq", "reqbad"}
CopyKinds  == {"bin", "hbin", "upper", "pyc", "text", "empty", "binlink", "binnoread", "req2"}
FailKinds  == {"pybad", "pyenc", "pynul", "pycook", "pydeep", "pynoread", "binnoread", "reqbad"}
NoEntry    == {"none"}
Unlinked   == {"dang"}

(* does the name end in .py ? *)
EndsPy == PyKinds \cup {"dang", "dirpy"}

IsDir(k) == k \in DirKinds
Present(s) == /\ tree[s] \notin NoEntry
              /\ Parent[s] # 0 => tree[Parent[s]] \in (DirKinds \ {"edir"})

RECURSIVE PathOf(_)
PathOf(s) == IF Parent[s] = 0 THEN <<s>> ELSE Append(PathOf(Parent[s]), s)
Last(p) == p[Len(p)]
Kind(p) == tree[Last(p)]
Reachable(s) == \A i \in 1..Len(PathOf(s)) : Present(PathOf(s)[i])
Entries == {PathOf(s) : s \in {x \in Slots : Reachable(x)}}

(* --- output places ------------------------------------------------------*)
Refused == {"self", "selflink", "f:self", "f:selfdir", "f:selflink", "f:below"}
(* a single input file: slot 1 *)
FilePlaces == {"f:new", "f:deep", "f:dir", "f:over", "f:self", "f:selfdir", "f:selflink", "f:below"}
Single == place \in FilePlaces
(* places where an older output of slot 1 and an unrelated file already lie *)
Stale   == {"stale"}

\* places where a directory stands in the way of the output of slot 1
Blocked(p) == place = "blocked" /\ p = <<1>>
Fails(p)   == Kind(p) \in FailKinds \/ Blocked(p)

AllPlaces == {"fresh", "empty", "stale", "blocked", "inside", "default", "defaultin", "inlink", "insidelink", "rel", "dots", "self", "selflink"} \cup FilePlaces
AllPats == {"none", "N1x", "N2x", "N3x", "N4x", "N5x", "N1x,N5x", "N3x[^/]*/N5x", "N[46]x", "\\.py$", "Proj", "^N1x", "zzz",
            "zzz,N3x.*\\.bin", "N4x,\\.py$,zzz", "/N6x[^/]*$", "n1X"}

(* --- exclusion ----------------------------------------------------------*)
(* Every name carries the tag of its slot, so a pattern "N3x" is found in  *)
(* the path of slot 3 and of everything below it.                          *)
Has(p, s) == \E i \in 1..Len(p) : p[i] = s
Consecutive(p, a, b) == \E i \in 1..(Len(p)-1) : p[i] = a /\ p[i+1] = b
BinKinds == {"bin", "hbin", "binlink", "binnoread"}

Match1(q, p) ==
  CASE q = "N1x"          -> Has(p, 1)
    [] q = "N2x"          -> Has(p, 2)
    [] q = "N3x"          -> Has(p, 3)
    [] q = "N4x"          -> Has(p, 4)
    [] q = "N5x"          -> Has(p, 5)
    [] q = "N3x[^/]*/N5x"      -> Consecutive(p, 3, 5)
    [] q = "N[46]x"       -> Has(p, 4) \/ Has(p, 6)
    [] q = "\\.py$"       -> Kind(p) \in EndsPy
    [] q = "Proj"         -> TRUE
    [] q = "^N1x"         -> FALSE          \* anchored at the start of the absolute path
    [] q = "zzz"          -> FALSE
    [] q = "N3x.*\\.bin"  -> Has(p, 3) /\ Kind(p) \in BinKinds
    [] q = "/N6x[^/]*$"   -> Last(p) = 6
    [] q = "n1X"          -> FALSE          \* patterns are case sensitive
    [] OTHER              -> FALSE

(* option value -> the comma separated patterns *)
Split(o) ==
  CASE o = "none"                  -> {}
    [] o = "N1x,N5x"               -> {"N1x", "N5x"}
    [] o = "zzz,N3x.*\\.bin"       -> {"zzz", "N3x.*\\.bin"}
    [] o = "N4x,\\.py$,zzz"        -> {"N4x", "\\.py$", "zzz"}
    [] OTHER                       -> {o}

PyCached(p) == \E i \in 1..Len(p) : tree[p[i]] = "pycache"
Excluded(p) == PyCached(p) \/ \E q \in Split(pat) : Match1(q, p)
Skip(p)     == (Kind(p) \in Hidden /\ ~Single) \/ Excluded(p)

(* the entries a run has to mirror *)
Selected == {p \in Entries : (Single => p = <<1>>) /\ \A i \in 1..Len(p) : ~Skip(SubSeq(p, 1, i))}

What(p) == LET k == Kind(p) IN
  CASE IsDir(k)        -> "dir"
    [] k \in PyKinds   -> "conv"
    [] k \in ReqKinds  -> "req"
    [] OTHER           -> "copy"

(* --- transitions --------------------------------------------------------*)
TypeOK == /\ phase \in {"tree", "opts", "place", "refuse", "walk", "done"}
          /\ err \in BOOLEAN

Init == /\ tree = <<"?", "?", "?", "?", "?", "?">>
        /\ pat = "none" /\ place = "fresh" /\ phase = "tree"
        /\ todo = <<>> /\ out = {} /\ opened = {} /\ err = FALSE

KindsOf(s) == CASE s \in {1, 2} -> Kinds1 [] s = 3 -> Kinds3 [] s = 4 -> Kinds4 [] s = 5 -> Kinds5 [] OTHER -> Kinds6

ChooseSlot == /\ phase = "tree"
              /\ LET s == CHOOSE x \in Slots : tree[x] = "?" /\ \A y \in Slots : y < x => tree[y] # "?"
                 IN \E k \in KindsOf(s) :
                      /\ tree' = [tree EXCEPT ![s] = k]
                      /\ phase' = IF s = 6 THEN "opts" ELSE "tree"
              /\ UNCHANGED <<pat, place, todo, out, opened, err>>

TopSlots == SelectSeq(<<1, 2, 3>>, LAMBDA s : Reachable(s))

ChoosePat == /\ phase = "opts"
             /\ \E q \in Pats : pat' = q
             /\ phase' = "place"
             /\ UNCHANGED <<tree, place, todo, out, opened, err>>

ChoosePlace == /\ phase = "place"
               /\ \E o \in Places :
                   /\ o \in FilePlaces => ~IsDir(tree[1]) /\ tree[1] \notin NoEntry \cup Unlinked
                   /\ place' = o
                   /\ todo' = (IF o \in FilePlaces THEN <<<<1>>>> ELSE [i \in 1..Len(TopSlots) |-> <<TopSlots[i]>>])
               /\ phase' = IF place' \in Refused THEN "refuse" ELSE "walk"
               /\ UNCHANGED <<tree, pat, out, opened, err>>

Refuse == /\ phase = "refuse"
          /\ err' = TRUE /\ phase' = "done" /\ todo' = <<>>
          /\ UNCHANGED <<tree, pat, place, out, opened>>

SkipEntry == /\ phase = "walk" /\ todo # <<>>
             /\ Skip(Head(todo)) \/ (~Skip(Head(todo)) /\ Kind(Head(todo)) \in Unlinked)
             /\ todo' = Tail(todo)
             /\ UNCHANGED <<tree, pat, place, phase, out, opened, err>>

EnterDir == /\ phase = "walk" /\ todo # <<>>
            /\ LET p == Head(todo)
                   kids == SelectSeq([i \in 1..6 |-> i], LAMBDA c : c \in Children(Last(p)) /\ Reachable(c))
               IN /\ ~Skip(p) /\ IsDir(Kind(p))
                  /\ out' = out \cup {[path |-> p, what |-> "dir"]}
                  /\ todo' = [i \in 1..Len(kids) |-> Append(p, kids[i])] \o Tail(todo)
            /\ UNCHANGED <<tree, pat, place, phase, opened, err>>

WriteFile == /\ phase = "walk" /\ todo # <<>>
             /\ LET p == Head(todo) IN
                  /\ ~Skip(p) /\ ~IsDir(Kind(p)) /\ ~Fails(p) /\ Kind(p) \notin Unlinked
                  /\ opened' = opened \cup {p}
                  /\ out' = out \cup {[path |-> p, what |-> What(p)]}
             /\ todo' = Tail(todo)
             /\ UNCHANGED <<tree, pat, place, phase, err>>

FailFile == /\ phase = "walk" /\ todo # <<>>
            /\ LET p == Head(todo) IN
                 /\ ~Skip(p) /\ Fails(p) /\ ~IsDir(Kind(p)) /\ Kind(p) \notin Unlinked
                 /\ opened' = opened \cup {p}
            /\ err' = TRUE /\ phase' = "done" /\ todo' = <<>>
            /\ UNCHANGED <<tree, pat, place, out>>

NeedHelper == ~Single /\ \E e \in out : e.what = "conv" /\ Kind(e.path) = "pyhelp"

Finish == /\ phase = "walk" /\ todo = <<>>
          /\ phase' = "done"
          /\ out' = out \cup (IF NeedHelper THEN {[path |-> <<>>, what |-> "helper"]} ELSE {})
          /\ UNCHANGED <<tree, pat, place, todo, opened, err>>

Stop == phase = "done" /\ UNCHANGED vars

Choose == ChooseSlot \/ ChoosePat \/ ChoosePlace
Walk == Refuse \/ SkipEntry \/ EnterDir \/ WriteFile \/ FailFile \/ Finish
Next == Choose \/ Walk \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Choose \/ Walk)

(* --- properties of the design -------------------------------------------*)
Files(S) == {p \in S : ~IsDir(Kind(p)) /\ Kind(p) \notin Unlinked}

\* C02: on success the output is exactly the image of the selection
Mirror == (phase = "done" /\ ~err) =>
   {e.path : e \in {x \in out : x.what # "helper"}} = {p \in Selected : Kind(p) \notin Unlinked}
OnePerPath == \A e, f \in out : e.path = f.path => e = f
HelperIff == (phase = "done" /\ ~err) =>
   ((\E e \in out : e.what = "helper") <=> (~Single /\ \E p \in Selected : Kind(p) = "pyhelp"))
\* C03: nothing that is left out is opened or mirrored
LeftOut == (opened \cup {e.path : e \in out}) \subseteq (Selected \cup {<<>>})
\* C04: an error is raised iff some selected file fails; the failing file has no output
ErrIff == phase = "done" => (err <=> (place \in Refused \/ \E p \in Files(Selected) : Fails(p)))
NoPartial == \A e \in out : e.path # <<>> => ~Fails(e.path)
\* C01 is structural: no action writes to the tree after it was chosen
InputKept == [][(phase \in {"walk", "done"}) => (tree' = tree)]_vars
\* the walk ends
Terminates == <>(phase = "done")

(* emission of complete scenarios *)
GenSpec == Init /\ [][Choose \/ Walk]_vars
EmitDone == (phase = "done") => PrintT("@CASE " \o ToJson([tree |-> tree, pat |-> pat, place |-> place]))
=============================================================================
