-------------------------------- MODULE Twice -------------------------------
(***************************************************************************)
(* Converting again what was converted.  A program is a sequence of sites  *)
(* (see Uses); every use of it stands in one of two spellings, PyTorch's   *)
(* ("src") or the converted one ("conv").  A pass in default mode converts *)
(* every use it recognises, a pass in minimal mode leaves the uses that    *)
(* only need the other package name, and the imports of PyTorch with them; *)
(* a pass in default mode removes those imports, and a program without     *)
(* them holds nothing a pass would recognise.                              *)
(* Programs here convert completely: they hold no unsupported use.         *)
(***************************************************************************)
EXTENDS Uses, Json

CONSTANTS Ctxs, UseKinds, Plains, MaxSites, MaxDepth, MaxPasses

VARIABLES sites, sp, torch, phase, mode, hist
vars == <<sites, sp, torch, phase, mode, hist>>

\* kinds that convert completely
Done == {k \in KindSet : K[k].cnt # "f" /\ K[k].vis = ""}

Init == sites = <<>> /\ sp = <<>> /\ torch = TRUE /\ phase = "ctx" /\ mode = "" /\ hist = <<>>

\* --- the environment writes the program
Cur == sites[Len(sites)]
PickCtx == /\ phase = "ctx" /\ Len(sites) < MaxSites
           /\ \E c \in Ctxs : sites' = Append(sites, [ctx |-> c, chain |-> <<>>, plain |-> ""])
           /\ phase' = "use" /\ UNCHANGED <<sp, torch, mode, hist>>
PickUse == /\ phase = "use" /\ Len(Cur.chain) < MaxDepth
           /\ \E k \in UseKinds :
                /\ Cur.chain # <<>> => Fits(Cur.chain[Len(Cur.chain)], k)
                /\ sites' = [sites EXCEPT ![Len(sites)].chain = Append(@, k)]
                /\ phase' = IF k \in LeafKinds THEN "ctx" ELSE "use"
           /\ UNCHANGED <<sp, torch, mode, hist>>
PickPlain == /\ phase = "use" /\ Cur.chain # <<>>
             /\ \E p \in Plains : FitsPlain(Cur.chain[Len(Cur.chain)], p) /\ sites' = [sites EXCEPT ![Len(sites)].plain = p]
             /\ phase' = "ctx" /\ UNCHANGED <<sp, torch, mode, hist>>
Start == /\ phase = "ctx" /\ Len(sites) = MaxSites
         /\ phase' = "idle" /\ sp' = [n \in 1..Len(sites) |-> [u \in 1..Len(sites[n].chain) |-> "src"]]
         /\ UNCHANGED <<sites, torch, mode, hist>>

\* --- what a use is in the program as it stands now
\* paddle's calls return tensors too; paddleformers is another library
RECURSIVE Alien(_, _, _, _)
Alien(ch, s, p, i) ==
  IF i > Len(ch) THEN Foreign(<<>>, p)
  ELSE \/ ch[i] = "np" \/ (ch[i] = "plus" /\ Display(SubSeq(ch, i + 1, Len(ch)), p)) \/ (s[i] = "conv" /\ ch[i] = "tok")
       \/ (K[ch[i]].pos = "recv" \/ ch[i] = "neg") /\ Alien(ch, s, p, i + 1)
RECURSIVE Tensor(_, _, _, _)
Tensor(ch, s, p, i) ==
  IF i > Len(ch) THEN p \notin NotTensor
  ELSE CASE ch[i] \in {"np", "enva", "lst", "tern"} -> FALSE
         [] s[i] = "conv" /\ ch[i] = "tok" -> FALSE
         [] ch[i] = "plus" -> ~Display(SubSeq(ch, i + 1, Len(ch)), p)
         [] ch[i] = "mT" -> Tensor(ch, s, p, i + 1)
         [] K[ch[i]].pos = "recv" \/ ch[i] = "neg" -> ~Alien(ch, s, p, i + 1)
         [] OTHER -> TRUE
\* what these convert to is a method PyTorch's classes have too: while its imports stay, it counts again
Again == {"sdot", "sdotk"}
Recognised(ch, s, p, u) ==
  /\ torch /\ (s[u] = "src" \/ ch[u] \in Again) /\ K[ch[u]].cnt = "s"
  /\ K[ch[u]].pos = "recv" => Tensor(ch, s, p, u + 1)
Changes(k) == K[k].op # K[k].ip \/ K[k].oq # K[k].iq

\* --- a pass
Counted(n) == {u \in 1..Len(sites[n].chain) : Recognised(sites[n].chain, sp[n], sites[n].plain, u)}
RECURSIVE SumSites(_)
SumSites(n) == IF n = 0 THEN 0 ELSE Cardinality(Counted(n)) + SumSites(n - 1)
After(m) == [n \in 1..Len(sites) |-> [u \in 1..Len(sites[n].chain) |->
               IF u \in Counted(n) /\ Changes(sites[n].chain[u]) /\ ~(m = "min" /\ K[sites[n].chain[u]].keep) THEN "conv" ELSE sp[n][u]]]
Pass == /\ phase = "idle" /\ Len(hist) < MaxPasses
        /\ \E m \in {"default", "min"} :
             /\ sp' = After(m) /\ mode' = m
             /\ torch' = (torch /\ m = "min")
             /\ hist' = Append(hist, [mode |-> m, s |-> SumSites(Len(sites)), changed |-> (After(m) # sp \/ (torch /\ m # "min")), sp |-> After(m)])
        /\ UNCHANGED <<sites, phase>>
Finish == phase = "idle" /\ Len(hist) = MaxPasses /\ phase' = "done" /\ UNCHANGED <<sites, sp, torch, mode, hist>>
Next == PickCtx \/ PickUse \/ PickPlain \/ Start \/ Pass \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE Spell(_, _, _, _)
Spell(ch, s, p, i) == IF i > Len(ch) THEN p
  ELSE LET k == K[ch[i]] IN IF s[i] = "conv" THEN k.op \o Spell(ch, s, p, i + 1) \o k.oq ELSE k.ip \o Spell(ch, s, p, i + 1) \o k.iq

\* --- C21: a pass in default mode leaves nothing for any later pass
Fixed == \A x, y \in 1..Len(hist) : (x < y /\ hist[x].mode = "default") => hist[y].s = 0 /\ ~hist[y].changed /\ ~torch
\* --- C21: nor does a pass in minimal mode for the next one in minimal mode
Stable == \A x \in 2..Len(hist) : (hist[x].mode = "min") => ~hist[x].changed
\* --- the way through minimal mode ends where the direct way does
\* (a method that minimal mode leaves on a receiver of a library that PyTorch's is converted to is no method of a tensor for the next pass)
Strands(n) == LET ch == sites[n].chain IN \E u \in 1..Len(ch) : K[ch[u]].pos = "recv" /\ K[ch[u]].keep /\ Alien(ch, [i \in 1..Len(ch) |-> "conv"], sites[n].plain, u + 1)
SameEnd == \A n \in {m \in 1..Len(sites) : ~Strands(m)} : (\E x \in 1..Len(hist) : hist[x].mode = "default") =>
             \A x \in 1..Len(hist) : (\E y \in 1..x : hist[y].mode = "default") => Spell(sites[n].chain, hist[x].sp[n], sites[n].plain, 1) = Conv(sites[n].chain, sites[n].plain, "default")
\* --- the first pass is the conversion of Convert.tla
FirstIs == \A n \in 1..Len(sites) : hist # <<>> => Spell(sites[n].chain, hist[1].sp[n], sites[n].plain, 1) = Conv(sites[n].chain, sites[n].plain, hist[1].mode)

EmitDone == (phase = "done") => PrintT("@CASE " \o ToJson([
     modes |-> [x \in 1..Len(hist) |-> hist[x].mode],
     sites |-> [n \in 1..Len(sites) |-> [ctx |-> sites[n].ctx, chain |-> sites[n].chain, plain |-> sites[n].plain,
                                         src |-> Src(sites[n].chain, sites[n].plain)]],
     texts |-> [x \in 1..Len(hist) |-> [n \in 1..Len(sites) |-> Spell(sites[n].chain, hist[x].sp[n], sites[n].plain, 1)]]]))
=============================================================================
