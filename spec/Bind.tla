-------------------------------- MODULE Bind --------------------------------
(***************************************************************************)
(* One call of one API: its arguments are bound to the parameters of the   *)
(* API, the bound values move to the parameters of the Paddle API, and the *)
(* new call is written.  Entry(a) is the contract of API a:                *)
(*   style  "generic" arguments are bound to parameters and renamed        *)
(*          "pass"    arguments are passed on as they are                  *)
(*          "none"    there is no Paddle counterpart                       *)
(*          "own"     the API has a conversion of its own, whose result is *)
(*                    part of the contract (see contract data)             *)
(*   fn     the function as written in the source ("x.abs", "torch.abs")   *)
(*   target the function of the converted call                             *)
(*   pos, kwo  positional and keyword-only parameters, min how many        *)
(*          positional ones are needed, over further keywords, nokw those  *)
(*          whose names are reserved words                                 *)
(*   uns    parameters without counterpart, change renamed or dropped ones *)
(*          drops: keywords dropped without notice (placement hints)       *)
(*   defaults  arguments added unless given                                *)
(*   post   parameters that become an operation on the result              *)
(* A call is a sequence of [k, v]: k = "" for a positional argument, "*"   *)
(* and "**" for unpackings, otherwise the keyword.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Apis, Entry(_), Calls(_)
VARIABLES api, call, ctx, k, status, bound, out
vars == <<api, call, ctx, k, status, bound, out>>

E == Entry(api)
Set(s) == {s[n] : n \in 1..Len(s)}
Keys(s) == {s[n][1] : n \in 1..Len(s)}
At(s, x) == LET n == CHOOSE m \in 1..Len(s) : s[m][1] = x IN s[n][2]
Sel(s, P(_)) == LET F[n \in 0..Len(s)] == IF n = 0 THEN <<>> ELSE IF P(s[n]) THEN Append(F[n - 1], s[n]) ELSE F[n - 1] IN F[Len(s)]

\* --------------------------------------------------------------- verdict
Live(e, c) == Sel(c, LAMBDA a : ~(a.k \in Set(e.uns) /\ a.v = "None"))
NPos(e, c) == Len(Sel(c, LAMBDA a : a.k = ""))
NBind(e, c) == Len(Sel(Live(e, c), LAMBDA a : a.k \notin Set(e.kwo)))
Known(e) == Set(e.pos) \cup Set(e.kwo) \cup Set(e.over) \cup Set(e.uns)
Verdict(e, c) ==
  CASE e.style = "none" -> "unsupported"
    [] e.style = "pass" -> "converted"
    [] \E n \in 1..Len(c) : c[n].k \in {"*", "**"} -> "unsupported"
    [] \E n \in 1..Len(Live(e, c)) : Live(e, c)[n].k \in Set(e.uns) -> "unsupported"
    [] \E n \in 1..Len(c) : c[n].k # "" /\ c[n].k \notin Known(e) -> "alien"
    [] NBind(e, c) < e.min \/ NBind(e, c) > Len(e.pos) -> "alien"
    [] \E n \in 1..NPos(e, c) : e.pos[n] \in Set(e.uns) -> "unsupported"
    [] OTHER -> "converted"

\* ----------------------------------------------------------- transitions
Init == /\ api \in Apis /\ call \in Calls(Entry(api)) /\ ctx \in {"assign", "expr"}
        /\ ctx = "expr" => Len(call) <= 1
        /\ k = 1 /\ bound = <<>> /\ out = <<>>
        /\ status = IF Entry(api).style = "own" THEN "own" ELSE "look"
Look == /\ status = "look"
        /\ status' = LET v == Verdict(E, call) IN IF v # "converted" THEN v ELSE IF E.style = "pass" THEN "pass" ELSE "bind"
        /\ UNCHANGED <<api, call, ctx, k, bound, out>>
\* the arguments are bound one after the other
BindOne == /\ status = "bind" /\ k <= Len(call)
           /\ LET a == call[k]
                  p == IF a.k = "" THEN E.pos[k] ELSE a.k
              IN bound' = IF a.k \in Set(E.uns) THEN bound ELSE Append(bound, <<p, a.v>>)
           /\ k' = k + 1 /\ UNCHANGED <<api, call, ctx, status, out>>
BindEnd == /\ status = "bind" /\ k > Len(call) /\ status' = "rename" /\ k' = 1
           /\ UNCHANGED <<api, call, ctx, bound, out>>
\* and renamed one after the other
NewNames(e, p) == IF p \in DOMAIN e.change THEN e.change[p] ELSE IF p \in Set(e.drops) THEN <<>> ELSE <<p>>
Rename == /\ status = "rename" /\ k <= Len(bound)
          /\ LET ns == NewNames(E, bound[k][1]) IN out' = out \o [n \in 1..Len(ns) |-> <<ns[n], bound[k][2]>>]
          /\ k' = k + 1 /\ UNCHANGED <<api, call, ctx, status, bound>>
AddDefaults == /\ status = "rename" /\ k > Len(bound)
               /\ out' = out \o Sel(E.defaults, LAMBDA d : d[1] \notin Keys(out))
               /\ status' = "converted" /\ UNCHANGED <<api, call, ctx, k, bound>>
\* or passed on, but for the placement hints
PassOne == /\ status = "pass" /\ k <= Len(call)
           /\ out' = IF call[k].k \in Set(E.drops) THEN out ELSE Append(out, <<call[k].k, call[k].v>>)
           /\ k' = k + 1 /\ UNCHANGED <<api, call, ctx, status, bound>>
PassEnd == /\ status = "pass" /\ k > Len(call) /\ status' = "passed" /\ UNCHANGED <<api, call, ctx, k, bound, out>>
Next == Look \/ BindOne \/ BindEnd \/ Rename \/ AddDefaults \/ PassOne \/ PassEnd
Spec == Init /\ [][Next]_vars
Final == status \in {"converted", "passed", "unsupported", "alien", "own"}

\* ------------------------------------------------------------ properties
\* every argument the mapping keeps arrives once under each of its new names
Arrives == status = "converted" =>
  /\ \A n \in 1..Len(call) : call[n].k \notin Set(E.uns) =>
       LET p == IF call[n].k = "" THEN E.pos[n] ELSE call[n].k IN
       \A q \in Set(NewNames(E, p)) : Cardinality({m \in 1..Len(out) : out[m] = <<q, call[n].v>>}) = 1
  /\ \A m \in 1..Len(out) : \/ \E n \in 1..Len(call) : out[m][2] = call[n].v
                            \/ out[m][1] \in Keys(E.defaults)
\* no two arguments meet under one name
NoClash == status = "converted" => \A a, b \in 1..Len(out) : a # b => out[a][1] # out[b][1]
\* the outcome depends on which parameter got which value only
Closed(e, B) == {<<q, b[2]>> : q \in UNION {Set(NewNames(e, x[1])) : x \in B}, b \in B}
ByBinding == status = "converted" =>
  LET B == Set(bound) IN
  Set(out) = {<<qb[1], qb[2]>> : qb \in UNION {{<<q, b[2]>> : q \in Set(NewNames(E, b[1]))} : b \in B}}
             \cup {d \in Set(E.defaults) : d[1] \notin UNION {Set(NewNames(E, b[1])) : b \in B}}
\* a parameter without counterpart is never dropped silently
NeverSilent == status = "converted" => \A n \in 1..Len(bound) : bound[n][1] \notin Set(E.uns)

\* -------------------------------------------------------------- the text
RECURSIVE Join(_)
Arg(a) == IF a.k = "" THEN a.v ELSE IF a.k \in {"*", "**"} THEN a.k \o a.v ELSE a.k \o "=" \o a.v
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN Head(s) ELSE Head(s) \o ", " \o Join(Tail(s))
Write(fn, args) == fn \o "(" \o Join([n \in 1..Len(args) |-> Arg(args[n])]) \o ")"
Source == Write(E.fn, call)
InCtx(c, t) == IF c = "assign" THEN "result = " \o t ELSE t

HasPost(p) == p \in Set(E.post) /\ p \in Keys(out) /\ At(out, p) # "None"
Core == Write(E.target, [n \in 1..Len(Sel(out, LAMBDA o : o[1] \notin Set(E.post))) |->
          [k |-> Sel(out, LAMBDA o : o[1] \notin Set(E.post))[n][1], v |-> Sel(out, LAMBDA o : o[1] \notin Set(E.post))[n][2]]])
WithType == IF HasPost("dtype") THEN Core \o ".astype(" \o At(out, "dtype") \o ")" ELSE Core
WithPin == IF "pin_memory" \in Set(E.post) /\ "pin_memory" \in Keys(out) /\ At(out, "pin_memory") # "False" THEN WithType \o ".pin_memory()" ELSE WithType
HasGrad == "requires_grad" \in Set(E.post) /\ "requires_grad" \in Keys(out)
Not == "not (" \o At(out, "requires_grad") \o ")"
Converted ==
  CASE HasGrad /\ HasPost("out") -> "paddle.assign(" \o WithPin \o ", output=" \o At(out, "out") \o ")\n" \o At(out, "out") \o ".stop_gradient = " \o Not
                                    \o "\n" \o InCtx(ctx, At(out, "out"))
    [] HasGrad -> "out_0 = " \o WithPin \o "\nout_0.stop_gradient = " \o Not \o "\n" \o InCtx(ctx, "out_0")
    [] HasPost("out") -> InCtx(ctx, "paddle.assign(" \o WithPin \o ", output=" \o At(out, "out") \o ")")
    [] OTHER -> InCtx(ctx, WithPin)
Text == CASE status = "converted" -> Converted
          [] status = "passed" -> InCtx(ctx, Write(E.target, [n \in 1..Len(out) |-> [k |-> out[n][1], v |-> out[n][2]]]))
          [] status = "own" -> ""
          [] OTHER -> InCtx(ctx, Source)
Emit == Final => PrintT("@CASE " \o ToJson([api |-> api, ctx |-> ctx, call |-> call, src |-> InCtx(ctx, Source), exp |-> Text, status |-> status]))
=============================================================================
