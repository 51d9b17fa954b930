------------------------------ MODULE MCBind ------------------------------
(* every contract with up to three positional and two keyword-only          *)
(* parameters, and every way to call it                                     *)
EXTENDS Bind
Pool == <<"a", "b", "c">>
KPool == <<"y", "z">>
MApis == [np : 0..3, nk : 0..2, min : 0..2, uns : SUBSET {"b", "z"}, ch : {"none", "ren", "drop", "two", "swap"}, def : BOOLEAN]
MEntry(a) == [style |-> "generic", fn |-> "f", target |-> "g", pos |-> SubSeq(Pool, 1, a.np), kwo |-> SubSeq(KPool, 1, a.nk), min |-> a.min, over |-> <<>>,
   uns |-> IF a.uns = {} THEN <<>> ELSE IF a.uns = {"b"} THEN <<"b">> ELSE IF a.uns = {"z"} THEN <<"z">> ELSE <<"b", "z">>,
   change |-> CASE a.ch = "none" -> <<>> [] a.ch = "ren" -> [a |-> <<"x">>] [] a.ch = "drop" -> [a |-> <<>>] [] a.ch = "two" -> [a |-> <<"x", "w">>] [] a.ch = "swap" -> [a |-> <<"c">>, c |-> <<"a">>],
   drops |-> <<"y">>, defaults |-> IF a.def THEN << <<"x", "0">> >> ELSE <<>>, post |-> <<>>, nokw |-> <<>>]
Perms(S) == {p \in UNION {[1..n -> S] : n \in 0..2} : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
MCalls(e) == {[n \in 1..s |-> [k |-> "", v |-> "v" \o ToString(n)]] \o [n \in 1..Len(p) |-> [k |-> p[n], v |-> IF nn THEN "None" ELSE "w" \o p[n]]]
             : s \in 0..(IF Len(e.pos) < 3 THEN Len(e.pos) + 1 ELSE 3), p \in Perms(Set(e.kwo) \cup Set(e.pos) \cup {"q"}), nn \in BOOLEAN}
MCallsOk(e) == {c \in MCalls(e) : \A n \in 1..Len(c) : \A m \in 1..Len(c) : (c[m].k = "" /\ m <= Len(e.pos)) => c[n].k # e.pos[m]}
\* the first offender decides only when there is one: calls with at most one unknown name
Small(e) == {c \in MCallsOk(e) : Len(c) <= 3}
=============================================================================
