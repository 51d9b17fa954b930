------------------------------ MODULE GenBind ------------------------------
(* The calls worth trying for every API of the contract.                    *)
EXTENDS Bind, IOUtils
ASSUME TLCSet(43, JsonDeserialize(IOEnv.CONTRACT))
Ask == JsonDeserialize(IOEnv.ASK)
GEntry(a) == TLCGet(43)[a]
GApis == Set(Ask.apis)

Val(p) == "v_" \o p
P(p) == [k |-> "", v |-> Val(p)]
Kw(p) == [k |-> p, v |-> Val(p)]
Rev(s) == [n \in 1..Len(s) |-> s[Len(s) + 1 - n]]
\* the ways to write the binding: pre in order, of which any first part by position, then more by keyword
Ways(e, pre, more) ==
  UNION {LET ks == [n \in 1..(Len(pre) - s) |-> pre[s + n]] \o more
             hd == [n \in 1..s |-> P(pre[n])]
         IN IF \E n \in 1..Len(ks) : ks[n] \in Set(e.nokw) THEN {}
            ELSE {hd \o [n \in 1..Len(ks) |-> Kw(ks[n])], hd \o [n \in 1..Len(ks) |-> Kw(Rev(ks)[n])]}
         : s \in 0..Len(pre)}
Pre(e, n) == SubSeq(e.pos, 1, n)
Mn(e) == IF e.min <= Len(e.pos) THEN e.min ELSE Len(e.pos)
Bindings(e) ==
  {<<Pre(e, n), <<>>>> : n \in 0..Len(e.pos)}
  \cup {<<Pre(e, n), <<q>>>> : n \in Mn(e)..Len(e.pos), q \in Set(e.kwo)}
  \cup (IF Len(e.kwo) > 0 THEN {<<Pre(e, n), e.kwo>> : n \in Mn(e)..Len(e.pos)} ELSE {})
  \cup {<<Pre(e, Mn(e)), <<e.pos[j]>>>> : j \in (Mn(e) + 1)..Len(e.pos)}
\* values other than a plain name, one parameter at a time
Values(e) == IF e.style = "own" THEN {"None", "True", "1", "-1", "'s'", "'cuda:0'", "[1, 2]", "(1, 2)", "f(x)[0]", "p or q", "torch.float32"}
             ELSE {"None", "True", "False", "1", "-1", "'s'", "[1, 2]", "f(x)[0]", "p or q", "p if c else q", "lambda u: u", "p[1:2, ..., ::3]"}
Valued(e) ==
  {[n \in 1..j |-> IF n = j THEN [k |-> "", v |-> w] ELSE P(e.pos[n])] : j \in 1..Len(e.pos), w \in Values(e)}
  \cup {[n \in 1..(Mn(e) + 1) |-> IF n <= Mn(e) THEN P(e.pos[n]) ELSE [k |-> q, v |-> w]]
        : q \in (Set(e.kwo) \cup {e.pos[j] : j \in (Mn(e) + 1)..Len(e.pos)}) \ Set(e.nokw), w \in Values(e)}
\* calls outside the signature, unpackings
Odd(e) ==
  {[n \in 1..(Len(e.pos) + 1) |-> IF n <= Len(e.pos) THEN P(e.pos[n]) ELSE [k |-> "", v |-> "v_extra"]],
   [n \in 1..(Mn(e) + 1) |-> IF n <= Mn(e) THEN P(e.pos[n]) ELSE [k |-> "zz_alien", v |-> "1"]],
   <<[k |-> "*", v |-> "xs"]>>, <<[k |-> "**", v |-> "ks"]>>,
   [n \in 1..(Mn(e) + 1) |-> IF n <= Mn(e) THEN P(e.pos[n]) ELSE [k |-> "*", v |-> "xs"]],
   [n \in 1..(Mn(e) + 1) |-> IF n <= Mn(e) THEN P(e.pos[n]) ELSE [k |-> "**", v |-> "ks"]],
   <<[k |-> "*", v |-> "xs"], [k |-> "*", v |-> "ys"], [k |-> "**", v |-> "ks"], [k |-> "**", v |-> "ls"]>>}
A(n) == [k |-> "", v |-> <<"va", "vb", "vc", "vd">>[n]]
Free(e) ==
  {[m \in 1..n |-> A(m)] : n \in 0..4}
  \cup {<<A(1), [k |-> q, v |-> w]>> : q \in {"axis", "input"}, w \in IF Ask.deep THEN {"v_q", "None", "p or q", "(1, 2)", "lambda u: u"} ELSE {"v_q"}}
  \cup {<<[k |-> "input", v |-> "v_i"], [k |-> "other", v |-> "v_o"], [k |-> "dim", v |-> "-1"]>>, <<A(1), [k |-> "device", v |-> "v_d"], [k |-> "dtype", v |-> "v_t"], [k |-> "out", v |-> "v_o"]>>}
  \cup {<<A(1), [k |-> q, v |-> "v_q"]>> : q \in Set(e.drops)}
  \cup (IF Ask.deep THEN {<<A(1), [k |-> q, v |-> "v_q"], [k |-> "zz", v |-> "v_z"]>> : q \in Set(e.drops)} ELSE {})
  \cup {<<A(1), [k |-> "zz_alien", v |-> "1"]>>, <<[k |-> "*", v |-> "xs"]>>, <<A(1), [k |-> "*", v |-> "xs"]>>, <<[k |-> "**", v |-> "ks"]>>, <<A(1), [k |-> "**", v |-> "ks"]>>,
        <<[k |-> "*", v |-> "xs"], A(2), [k |-> "*", v |-> "ys"], [k |-> "axis", v |-> "1"], [k |-> "**", v |-> "ks"], [k |-> "**", v |-> "ls"]>>}
  \cup {<<[k |-> "", v |-> w]>> : w \in IF Ask.deep THEN Values(e) ELSE {"None", "p or q"}}
  \cup (IF e.style = "own" THEN {<<A(1), [k |-> "", v |-> w]>> : w \in Values(e)} \cup {<<[k |-> q, v |-> w]>> : q \in Set(e.words), w \in Values(e)}
                                \cup {<<A(1), [k |-> q, v |-> "v_q"]>> : q \in Set(e.words)}
                                \cup {<<[k |-> q, v |-> "v_q"], [k |-> r, v |-> "v_r"]>> : q, r \in Set(e.words)} ELSE {})
Proper(e, c) == /\ \A m, n \in 1..Len(c) : (c[m].k = "" /\ m <= Len(e.pos)) => c[n].k # e.pos[m]
                /\ \A m, n \in 1..Len(c) : (m # n /\ c[m].k = c[n].k) => c[m].k \in {"", "*", "**"}
                /\ \A m, n \in 1..Len(c) : (m < n /\ c[m].k \notin {"", "*"}) => c[n].k # "" /\ (c[n].k = "*" => FALSE)
GCalls(e) ==
  {c \in CASE e.style = "none" -> {<<>>, <<A(1)>>, <<A(1), [k |-> "zz", v |-> "v_z"]>>, <<[k |-> "*", v |-> "xs"], [k |-> "**", v |-> "ks"]>>}
           [] e.style = "pass" -> Free(e)
           [] e.style = "generic" -> UNION {Ways(e, b[1], b[2]) : b \in Bindings(e)} \cup Valued(e) \cup Odd(e)
           [] OTHER -> UNION {Ways(e, b[1], b[2]) : b \in Bindings(e)} \cup Valued(e) \cup Odd(e) \cup (IF Len(e.pos) = 0 \/ e.free THEN Free(e) ELSE {})
   : Proper(e, c)}
=============================================================================
