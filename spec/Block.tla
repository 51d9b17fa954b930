------------------------------- MODULE Block -------------------------------
(***************************************************************************)
(* The statements of a file, block by block.  A program is a sequence of   *)
(* tokens: simple statements, the opening of a compound statement, its     *)
(* further parts (else, except, finally) and its end.  The conversion      *)
(* reads it from left to right and writes the output:                      *)
(*  - statements that a use needs are written directly before the          *)
(*    statement with the use, in its block, in the order of evaluation;    *)
(*  - the note about an unconverted method comes last of them, and the     *)
(*    first line of the statement is marked;                               *)
(*  - imports of converted packages disappear; a block that must not be    *)
(*    empty is filled with pass, one that may be empty is left out;        *)
(*  - everything else stays, in its place and order.                       *)
(* Numbers make the names of a statement unique: v3, w3, g3 are operands   *)
(* of statement 3, T3a, T3b the temporaries generated for it.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Leaves,     \* kinds of use in simple statements
          Forms,      \* shapes of simple statements
          Heads,      \* kinds of use in headers
          Cons,       \* compound statements
          MaxTokens, MaxDepth

\* ------------------------------------------------------------ kinds of use
Nm(n) == ToString(n)
V(n) == "v" \o Nm(n)
W(n) == "w" \o Nm(n)
G(n) == "g" \o Nm(n)
T(n, x) == "T" \o Nm(n) \o x
Sig(t) == t \o " / (1 + " \o t \o ")"
Expit(t, x) == t \o " = paddle.exp(" \o x \o ")"
Adj(t, x) == <<t \o " = list(range(" \o x \o ".ndim))", t \o "[-1], " \o t \o "[-2] = (" \o t \o "[-2], " \o t \o "[-1])">>
AdjE(t, x) == "paddle.conj(paddle.transpose(" \o x \o ", perm=" \o t \o "))"
Note == "@note"

KindsOfUse == {"plain", "conv", "uns", "ann", "ann2", "exp", "exp2", "adj", "scal", "var", "eq", "two", "annexp", "expann", "svd2", "frombuf", "lam", "lamm", "comp"}
ImportKinds == {"imp", "impas", "impfrom", "imp2", "mix", "sib"}
Gone(k) == k \in {"imp", "impas", "impfrom", "imp2"}

SrcE(k, n) ==
  CASE k = "plain"  -> "fn(" \o V(n) \o ")"
    [] k = "conv"   -> "torch.abs(" \o V(n) \o ")"
    [] k = "uns"    -> "torch.foo_bar(" \o V(n) \o ")"
    [] k = "ann"    -> V(n) \o ".is_shared()"
    [] k = "ann2"   -> "fn(" \o V(n) \o ".is_shared(), " \o W(n) \o ".is_shared())"
    [] k = "exp"    -> "torch.special.expit(" \o V(n) \o ")"
    [] k = "exp2"   -> "torch.special.expit(torch.special.expit(" \o V(n) \o "))"
    [] k = "adj"    -> V(n) \o ".adjoint()"
    [] k = "scal"   -> "torch.scalar_tensor(" \o V(n) \o ", requires_grad=" \o G(n) \o ")"
    [] k = "var"    -> "torch.autograd.Variable(" \o V(n) \o ", requires_grad=" \o G(n) \o ")"
    [] k = "eq"     -> V(n) \o ".eq_(" \o W(n) \o ")"
    [] k = "two"    -> "fn(torch.special.expit(" \o V(n) \o "), k=" \o W(n) \o ".adjoint())"
    [] k = "annexp" -> "fn(" \o V(n) \o ".is_shared(), torch.special.expit(" \o W(n) \o "))"
    [] k = "expann" -> "[torch.special.expit(" \o W(n) \o "), " \o V(n) \o ".is_shared()]"
    [] k = "svd2"   -> "fn(torch.slogdet(" \o V(n) \o "), torch.slogdet(" \o W(n) \o "))"
    [] k = "lam"    -> "lambda x: torch.special.expit(x)"
    [] k = "lamm"   -> "lambda x: x.adjoint()"
    [] k = "comp"   -> "[fn(torch.special.expit(x)) for x in " \o V(n) \o "]"
    [] k = "frombuf" -> "torch.frombuffer(" \o V(n) \o ", dtype=" \o W(n) \o ")"

OutE(k, n) ==
  CASE k \in {"plain", "uns", "ann", "ann2", "lam", "lamm", "comp"} -> SrcE(k, n)
    [] k = "conv"   -> "paddle.abs(" \o V(n) \o ")"
    [] k = "exp"    -> Sig(T(n, "a"))
    [] k = "exp2"   -> Sig(T(n, "b"))
    [] k = "adj"    -> AdjE(T(n, "a"), V(n))
    [] k = "scal"   -> T(n, "a")
    [] k = "var"    -> V(n)
    [] k = "eq"     -> V(n) \o ".equal_(y=paddle.to_tensor(" \o W(n) \o ")).cast_(" \o T(n, "a") \o ")"
    [] k = "two"    -> "fn(" \o Sig(T(n, "a")) \o ", k=" \o AdjE(T(n, "b"), W(n)) \o ")"
    [] k = "annexp" -> "fn(" \o V(n) \o ".is_shared(), " \o Sig(T(n, "a")) \o ")"
    [] k = "expann" -> "[" \o Sig(T(n, "a")) \o ", " \o V(n) \o ".is_shared()]"
    [] k = "svd2"   -> "fn((" \o T(n, "a") \o "[0], " \o T(n, "a") \o "[1].astype('float32')), (" \o T(n, "b") \o "[0], " \o T(n, "b") \o "[1].astype('float32')))"
    [] k = "frombuf" -> "paddle.to_tensor(np.frombuffer(np.array(" \o T(n, "a") \o "), dtype=" \o T(n, "b") \o "))"

\* the statements to insert, in the order of evaluation
PreE(k, n) ==
  CASE k \in {"plain", "conv", "uns", "lam", "comp"} -> <<>>
    [] k \in {"ann", "ann2", "lamm"} -> <<Note>>
    [] k = "exp"    -> <<Expit(T(n, "a"), V(n))>>
    [] k = "exp2"   -> <<Expit(T(n, "a"), V(n)), Expit(T(n, "b"), Sig(T(n, "a")))>>
    [] k = "adj"    -> Adj(T(n, "a"), V(n))
    [] k = "scal"   -> <<T(n, "a") \o " = paddle.to_tensor(data=" \o V(n) \o ", dtype=paddle.float32)", T(n, "a") \o ".stop_gradient = not " \o G(n)>>
    [] k = "var"    -> <<V(n) \o ".stop_gradient = not " \o G(n)>>
    [] k = "eq"     -> <<T(n, "a") \o " = " \o V(n) \o ".dtype">>
    [] k = "two"    -> <<Expit(T(n, "a"), V(n))>> \o Adj(T(n, "b"), W(n))
    [] k \in {"annexp", "expann"} -> <<Expit(T(n, "a"), W(n)), Note>>
    [] k = "svd2"   -> <<T(n, "a") \o " = paddle.linalg.slogdet(" \o V(n) \o ")", T(n, "b") \o " = paddle.linalg.slogdet(" \o W(n) \o ")">>
    [] k = "frombuf" -> <<T(n, "a") \o " = " \o V(n), T(n, "b") \o " = " \o W(n),
                          "if isinstance(" \o T(n, "b") \o ", paddle.base.core.DataType): " \o T(n, "b") \o " = " \o T(n, "b") \o ".name.lower()">>
Marked(k) == k \in {"lam", "lamm", "comp", "uns", "ann", "ann2", "annexp", "expann"}
LineMarked == {"uns", "lam", "comp"}

\* ------------------------------------------------------------ statements
Form(f, n, e) ==
  CASE f = "assign" -> "s" \o Nm(n) \o " = fn(" \o e \o ")"
    [] f = "expr"   -> "s" \o Nm(n) \o "(" \o e \o ")"
    [] f = "assert" -> "assert s" \o Nm(n) \o "(" \o e \o ")"
    [] f = "aug"    -> "s" \o Nm(n) \o " += fn(" \o e \o ")"
    [] f = "annasg" -> "s" \o Nm(n) \o ": int = fn(" \o e \o ")"
    [] f = "del"    -> "del s" \o Nm(n) \o "[fn(" \o e \o ")]"
    [] f = "raise"  -> "raise s" \o Nm(n) \o "(" \o e \o ")"
ImportSrc(k, n) ==
  CASE k = "imp"     -> "import torch"
    [] k = "impas"   -> "import torch.nn.functional as F" \o Nm(n)
    [] k = "impfrom" -> "from torch import nn as n" \o Nm(n)
    [] k = "imp2"    -> "import torch, torchvision"
    [] k = "mix"     -> "import torch, mod" \o Nm(n)
    [] k = "sib"     -> "from mod" \o Nm(n) \o " import sib_a"
ImportOut(k, n) == IF k = "mix" THEN "import mod" \o Nm(n) ELSE ImportSrc(k, n)
SrcS(tok) == IF tok.k \in ImportKinds THEN ImportSrc(tok.k, tok.n) ELSE Form(tok.c, tok.n, SrcE(tok.k, tok.n))
OutS(tok) == IF tok.k \in ImportKinds THEN ImportOut(tok.k, tok.n) ELSE Form(tok.c, tok.n, OutE(tok.k, tok.n))

\* headers; a use in a header is evaluated before the statement begins
Header(c, n, e) ==
  CASE c = "if"     -> "if fn(q" \o Nm(n) \o ", " \o e \o ")"
    [] c = "while"  -> "while fn(q" \o Nm(n) \o ", " \o e \o ")"
    [] c = "for"    -> "for q" \o Nm(n) \o " in fn(" \o e \o ")"
    [] c = "afor"   -> "async for q" \o Nm(n) \o " in fn(" \o e \o ")"
    [] c = "with"   -> "with fn(" \o e \o ") as q" \o Nm(n)
    [] c = "awith"  -> "async with fn(" \o e \o ") as q" \o Nm(n)
    [] c = "with2"  -> "with open(q" \o Nm(n) \o ") as r, fn(" \o e \o ")"
    [] c = "def"    -> "def q" \o Nm(n) \o "(a, b=fn(" \o e \o "))"
    [] c = "adef"   -> "async def q" \o Nm(n) \o "(a, b=fn(" \o e \o "))"
    [] c = "ddef"   -> "@fn(" \o e \o ") def q" \o Nm(n) \o "(a)"
    [] c = "class"  -> "class q" \o Nm(n) \o "(fn(" \o e \o "))"
    [] c = "dclass" -> "@fn(" \o e \o ") class q" \o Nm(n) \o "(B)"
    [] c = "try"    -> "try"
    [] c = "except" -> "except (Q" \o Nm(n) \o ", fn(" \o e \o "))"
    [] c = "else"   -> "else"
    [] c = "finally" -> "finally"
HasHead(c) == c \notin {"try", "else", "finally"}
HeadK(tok) == IF HasHead(tok.c) THEN tok.k ELSE "plain"
\* parts that may follow part p of a compound statement
Parts(c, p, h) ==
  CASE c \in {"if", "while", "for", "afor"} -> IF p = "body" THEN {"else"} ELSE {}
    [] c = "try" -> CASE p = "body"   -> {"except", "finally"}
                      [] p = "except" -> {"except", "else", "finally"}
                      [] p = "else"   -> {"finally"}
                      [] OTHER -> {}
    [] OTHER -> {}
MayClose(c, p) == c = "try" => p # "body"

VARIABLES prog,   \* the program, as written so far
          open,   \* compound statements open at the writing end: [c, part, n]
          phase, i, out, stack
vars == <<prog, open, phase, i, out, stack>>

Tok(t, c, k, n) == [t |-> t, c |-> c, k |-> k, n |-> n]
N1 == Len(prog) + 1
Top == open[Len(open)]
Init == prog = <<>> /\ open = <<>> /\ phase = "write" /\ i = 1 /\ out = <<>> /\ stack = <<>>

\* ------------------------------------------------------------ writing a program
InAsync == LET F == {x \in 1..Len(open) : open[x].c \in {"def", "ddef", "adef", "class", "dclass"}} IN
           F # {} /\ open[CHOOSE x \in F : \A y \in F : y <= x].c = "adef"
Room == Len(prog) + Len(open) + (IF open # <<>> /\ Top.cnt = 0 THEN 1 ELSE 0) < MaxTokens
Bump == IF open = <<>> THEN open ELSE [open EXCEPT ![Len(open)].cnt = @ + 1]
Write == /\ phase = "write" /\ Room
         /\ \E k \in Leaves : \E f \in (IF k \in ImportKinds THEN {"assign"} ELSE Forms) :
              prog' = Append(prog, Tok("s", f, k, N1))
         /\ open' = Bump /\ UNCHANGED <<phase, i, out, stack>>
Open == /\ phase = "write" /\ Room /\ Len(open) < MaxDepth
        /\ Len(prog) + Len(open) + 4 <= MaxTokens
        /\ \E c \in Cons : \E k \in Heads :
             /\ c \in {"afor", "awith"} => InAsync
             /\ c = "try" => k = "plain"
             /\ prog' = Append(prog, Tok("o", c, k, N1))
             /\ open' = Append(Bump, [c |-> c, part |-> "body", cnt |-> 0])
        /\ UNCHANGED <<phase, i, out, stack>>
Part == /\ phase = "write" /\ open # <<>> /\ Top.cnt > 0 /\ Len(prog) + Len(open) + 2 <= MaxTokens
        /\ \E p \in Parts(Top.c, Top.part, TRUE) : \E k \in Heads :
             /\ ~HasHead(p) => k = "plain"
             /\ prog' = Append(prog, Tok("p", p, k, N1))
             /\ open' = [open EXCEPT ![Len(open)].part = p, ![Len(open)].cnt = 0]
        /\ UNCHANGED <<phase, i, out, stack>>
Close == /\ phase = "write" /\ open # <<>> /\ Top.cnt > 0 /\ MayClose(Top.c, Top.part)
         /\ prog' = Append(prog, Tok("c", "", "plain", N1)) /\ open' = SubSeq(open, 1, Len(open) - 1)
         /\ UNCHANGED <<phase, i, out, stack>>
Done == /\ phase = "write" /\ open = <<>> /\ prog # <<>> /\ Len(prog) + 1 >= MaxTokens
        /\ phase' = "read" /\ UNCHANGED <<prog, open, i, out, stack>>

\* ------------------------------------------------------------ the conversion
O(t, x, m) == [t |-> t, x |-> x, m |-> m]
Pre(k, n) == [j \in 1..Len(PreE(k, n)) |-> O("s", PreE(k, n)[j], FALSE)]
\* frame: where the statement (o), its current part (p) and the block (b) begin in the output
Frame(c, o) == [c |-> c, part |-> "body", o |-> o, p |-> o, b |-> o, handlers |-> FALSE]
F == stack[Len(stack)]
Must(f) == f.part \in {"body", "except"} \/ (f.part = "finally" /\ ~f.handlers)
EndBlock(o, f) == IF Len(o) > f.b THEN o
                  ELSE IF Must(f) THEN Append(o, O("s", "pass", FALSE)) ELSE SubSeq(o, 1, Len(o) - 1)
Cur == prog[i]
ReadS == /\ phase = "read" /\ i <= Len(prog) /\ Cur.t = "s"
         /\ out' = IF Gone(Cur.k) THEN out
                   ELSE IF Cur.k \in ImportKinds THEN Append(out, O("s", OutS(Cur), FALSE))
                   ELSE out \o Pre(Cur.k, Cur.n) \o <<O("s", OutS(Cur), Marked(Cur.k))>>
         /\ i' = i + 1 /\ UNCHANGED <<prog, open, phase, stack>>
ReadO == /\ phase = "read" /\ i <= Len(prog) /\ Cur.t = "o"
         /\ LET pre == Pre(HeadK(Cur), Cur.n) IN
            /\ out' = out \o pre \o <<O("o", Header(Cur.c, Cur.n, OutE(HeadK(Cur), Cur.n)), Marked(HeadK(Cur)))>>
            /\ stack' = Append(stack, Frame(Cur.c, Len(out) + Len(pre) + 1))
         /\ i' = i + 1 /\ UNCHANGED <<prog, open, phase>>
\* a use in the header of a handler: its statements go before the whole try
ReadP == /\ phase = "read" /\ i <= Len(prog) /\ Cur.t = "p"
         /\ LET o1 == EndBlock(out, F)
                pre == Pre(HeadK(Cur), Cur.n)
                note == Marked(HeadK(Cur)) /\ HeadK(Cur) \notin LineMarked
                \* notes stay last before the try
                hasnote == F.c = "try" /\ o1[F.o].m
                plainpre == SelectSeq(pre, LAMBDA x : x.x # Note)
                at == IF hasnote THEN F.o - 2 ELSE F.o - 1
                ins == plainpre \o (IF note /\ ~hasnote THEN <<O("s", Note, FALSE)>> ELSE <<>>)
                o2 == SubSeq(o1, 1, at) \o ins \o SubSeq(o1, at + 1, Len(o1))
                o3 == [o2 EXCEPT ![F.o + Len(ins)].m = @ \/ note]
                tok == O("p", Header(Cur.c, Cur.n, OutE(HeadK(Cur), Cur.n)), HeadK(Cur) \in LineMarked) IN
            /\ out' = Append(o3, tok)
            /\ stack' = [stack EXCEPT ![Len(stack)] = [F EXCEPT !.part = Cur.c, !.o = @ + Len(ins), !.p = Len(o3) + 1, !.b = Len(o3) + 1,
                                                                !.handlers = @ \/ Cur.c = "except"]]
         /\ i' = i + 1 /\ UNCHANGED <<prog, open, phase>>
ReadC == /\ phase = "read" /\ i <= Len(prog) /\ Cur.t = "c"
         /\ out' = Append(EndBlock(out, F), O("c", "", FALSE))
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ i' = i + 1 /\ UNCHANGED <<prog, open, phase>>
Finish == /\ phase = "read" /\ i > Len(prog) /\ phase' = "done" /\ UNCHANGED <<prog, open, i, out, stack>>
Read == ReadS \/ ReadO \/ ReadP \/ ReadC \/ Finish
Next == Write \/ Open \/ Part \/ Close \/ Done \/ Read
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties of the model
RECURSIVE Depth(_, _)
Depth(o, n) == IF n = 0 THEN 0 ELSE Depth(o, n - 1) + (CASE o[n].t = "o" -> 1 [] o[n].t = "c" -> -1 [] OTHER -> 0)
Int0 == 0
WellNested == phase = "done" => Depth(out, Len(out)) = 0 /\ \A n \in 1..Len(out) : Depth(out, n) >= Int0
\* C19: no block is empty
NoEmptyBlock == phase = "done" => \A n \in 1..Len(out) : out[n].t \in {"o", "p"} => n < Len(out) /\ out[n + 1].t \in {"s", "o"}
\* C16: what stays, stays in order
Kept == SelectSeq(prog, LAMBDA t : t.t \in {"s", "o"} /\ ~Gone(t.k) )
Text(t) == IF t.t = "s" THEN OutS(t) ELSE Header(t.c, t.n, OutE(HeadK(t), t.n))
Own == {Text(Kept[n]) : n \in 1..Len(Kept)}
OrderKept == phase = "done" =>
  LET o == SelectSeq(out, LAMBDA t : t.x \in Own) IN
  Len(o) = Len(Kept) /\ \A n \in 1..Len(o) : o[n].x = Text(Kept[n])
\* C16: the inserted statements of a simple statement stand directly before it
PreAdjacent == phase = "done" => \A n \in 1..Len(prog) :
  prog[n].t = "s" /\ prog[n].k \notin ImportKinds =>
    \E a \in 1..Len(out) : /\ out[a].x = Text(prog[n])
                           /\ LET p == PreE(prog[n].k, prog[n].n) IN
                              a > Len(p) /\ \A j \in 1..Len(p) : out[a - Len(p) + j - 1].x = p[j] /\ out[a - Len(p) + j - 1].t = "s"
\* C08: a note is followed by a marked statement
NoteMarks == phase = "done" => \A n \in 1..Len(out) : out[n].x = Note => n < Len(out) /\ out[n + 1].m

EmitDone == phase = "done" => PrintT("@CASE " \o ToJson([prog |-> prog,
    src |-> [n \in 1..Len(prog) |-> IF prog[n].t = "s" THEN SrcS(prog[n]) ELSE IF prog[n].t = "c" THEN "" ELSE Header(prog[n].c, prog[n].n, SrcE(HeadK(prog[n]), prog[n].n))]]))
=============================================================================
