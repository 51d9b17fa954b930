------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* The conversion of a file: its uses are visited innermost first, counted *)
(* and converted one by one; then the lines that still carry unconverted   *)
(* uses are marked and the totals are reported.                            *)
(* A site is [ctx, chain, plain]: where the expression stands, its nested  *)
(* uses, and the plain operand of the innermost one.                       *)
(***************************************************************************)
EXTENDS Uses, Json

CONSTANTS Ctxs, UseKinds, Plains, MaxSites, MaxDepth, Modes

VARIABLES sites, mode, phase, i, j, succ, fail, all, uns, left, noted
vars == <<sites, mode, phase, i, j, succ, fail, all, uns, left, noted>>

\* (Python itself: an f-string's replacement field holds no comment, and a
\*  lambda in it must be in parentheses, which it is)
CtxFits(c, k) == TRUE
CtxFitsPlain(c, p) == TRUE

Init == /\ sites = <<>> /\ mode \in Modes /\ phase = "ctx" /\ i = 1 /\ j = 0
        /\ succ = 0 /\ fail = 0 /\ all = <<>> /\ uns = <<>> /\ left = {} /\ noted = {}

\* --- the environment writes the program, one choice at a time
Cur == sites[Len(sites)]
PickCtx == /\ phase = "ctx" /\ Len(sites) < MaxSites
           /\ \E c \in Ctxs : sites' = Append(sites, [ctx |-> c, chain |-> <<>>, plain |-> ""])
           /\ phase' = "use" /\ UNCHANGED <<mode, i, j, succ, fail, all, uns, left, noted>>
PickUse == /\ phase = "use" /\ Len(Cur.chain) < MaxDepth
           /\ \E k \in UseKinds :
                /\ CtxFits(Cur.ctx, k)
                /\ Cur.chain # <<>> => Fits(Cur.chain[Len(Cur.chain)], k)
                /\ sites' = [sites EXCEPT ![Len(sites)].chain = Append(@, k)]
                /\ phase' = IF k \in LeafKinds THEN "ctx" ELSE "use"
           /\ UNCHANGED <<mode, i, j, succ, fail, all, uns, left, noted>>
PickPlain == /\ phase = "use" /\ Cur.chain # <<>>
             /\ \E p \in Plains :
                  /\ CtxFitsPlain(Cur.ctx, p) /\ FitsPlain(Cur.chain[Len(Cur.chain)], p)
                  /\ sites' = [sites EXCEPT ![Len(sites)].plain = p]
             /\ phase' = "ctx" /\ UNCHANGED <<mode, i, j, succ, fail, all, uns, left, noted>>
Start == /\ phase = "ctx" /\ Len(sites) = MaxSites
         /\ phase' = "visit" /\ i' = 1 /\ j' = Len(sites[1].chain)
         /\ UNCHANGED <<sites, mode, succ, fail, all, uns, left, noted>>

\* --- the converter visits one use
Inc(bag, x) == IF x \in DOMAIN bag THEN [bag EXCEPT ![x] = @ + 1] ELSE bag @@ (x :> 1)
Now == Effective(sites[i].chain, sites[i].plain, j)
Visit == /\ phase = "visit" /\ i <= Len(sites) /\ j >= 1
         /\ LET e == Now IN
            /\ succ' = succ + (IF e.cnt = "s" THEN 1 ELSE 0)
            /\ fail' = fail + (IF e.cnt = "f" THEN 1 ELSE 0)
            /\ all' = IF e.cnt = "n" THEN all ELSE Inc(all, ListedAs(sites[i].chain[j], e, mode))
            /\ uns' = IF e.cnt = "f" THEN Inc(uns, e.ukey) ELSE uns
            /\ left' = IF e.vis = "line" THEN left \cup {<<i, PkgName(sites[i].chain[j])>>} ELSE left
            /\ noted' = IF e.vis = "stmt" THEN noted \cup {i} ELSE noted
         /\ j' = j - 1 /\ UNCHANGED <<sites, mode, phase, i>>
NextSite == /\ phase = "visit" /\ i <= Len(sites) /\ j = 0
            /\ i' = i + 1 /\ j' = IF i < Len(sites) THEN Len(sites[i + 1].chain) ELSE 0
            /\ UNCHANGED <<sites, mode, phase, succ, fail, all, uns, left, noted>>
Finish == /\ phase = "visit" /\ i > Len(sites) /\ phase' = "done"
          /\ UNCHANGED <<sites, mode, i, j, succ, fail, all, uns, left, noted>>

Next == PickCtx \/ PickUse \/ PickPlain \/ Start \/ Visit \/ NextSite \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE SumOf(_, _)
SumOf(bag, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN bag[x] + SumOf(bag, D \ {x})
Total(bag) == SumOf(bag, DOMAIN bag)

\* --- C07: the books balance at every moment
Balanced == Total(all) = succ + fail /\ Total(uns) = fail
\* --- C07: each use is counted once (against a count that does not visit)
RECURSIVE Uses2(_, _)
Uses2(n, c) == IF n = 0 THEN 0
  ELSE Cardinality({u \in 1..Len(sites[n].chain) : Effective(sites[n].chain, sites[n].plain, u).cnt = c}) + Uses2(n - 1, c)
CountedOnce == phase = "done" => succ = Uses2(Len(sites), "s") /\ fail = Uses2(Len(sites), "f")
\* --- C08/C09: exactly the sites with an unconverted use show one
Shown == {x[1] : x \in left} \cup noted
MarkedIff == phase = "done" => Shown = {n \in 1..Len(sites) : \E u \in 1..Len(sites[n].chain) : Effective(sites[n].chain, sites[n].plain, u).vis # ""}
\* --- C18: minimal mode changes no count and leaves only prefix APIs alone
MinKeeps == \A n \in 1..Len(sites) : (phase = "done" /\ \A u \in 1..Len(sites[n].chain) : K[sites[n].chain[u]].keep)
               => Conv(sites[n].chain, sites[n].plain, "min") = Src(sites[n].chain, sites[n].plain)

EmitDone == (phase = "done") => PrintT("@CASE " \o ToJson([mode |-> mode,
     sites |-> [n \in 1..Len(sites) |-> [ctx |-> sites[n].ctx, chain |-> sites[n].chain, plain |-> sites[n].plain,
                                         src |-> Src(sites[n].chain, sites[n].plain),
                                         exp |-> Conv(sites[n].chain, sites[n].plain, mode)]]]))
=============================================================================
