------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* Python programs as derivations of a grammar, together with the image of *)
(* the program under conversion: the conversion is a homomorphism of the   *)
(* syntax tree.  Every construct of the language is kept as it is, only    *)
(* the uses of PyTorch (the texts of ImageOf) are replaced by their         *)
(* images.  Derivations are leftmost: `stack` holds what is still to *)
(* be written, `src` the program so far, `img` its image.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Top,       \* the sort derived first
          MaxDepth,  \* deeper symbols are closed by their default
          Spine,     \* TRUE: only one slot of every construct is developed, the others take their default
          Torch,     \* TRUE: with productions that use PyTorch
          NewSyntax, \* TRUE: with match, except*, type parameters
          Other,     \* TRUE: with values of other libraries
          Only       \* names of productions the derivation must come through ({}: any)

Sorts == {"E", "S", "B", "T", "C", "A", "K", "SL", "P", "H", "W", "F", "TP", "DO", "O", "D", "M"}

\* production: sort, name, items.  An item is a sort or a text.
Pr(s, n, i) == [s |-> s, n |-> n, i |-> i]
BinOps == <<"+", "-", "*", "/", "//", "%", "@", "**", "<<", ">>", "&", "|", "^">>
CmpOps == <<"==", "!=", "<", "<=", ">", ">=", "is", "is not", "in", "not in">>
UnOps  == <<"-", "+", "~", "not ">>
Bins == {Pr("E", "bin" \o o, <<"(", "E", " " \o o \o " ", "E", ")">>) : o \in {BinOps[k] : k \in 1..13}}
Cmps == {Pr("E", "cmp " \o o, <<"(", "E", " " \o o \o " ", "E", ")">>) : o \in {CmpOps[k] : k \in 1..10}}
Uns  == {Pr("E", "un" \o o, <<"(" \o o, "E", ")">>) : o \in {UnOps[k] : k \in 1..4}}
Augs == {Pr("S", "aug" \o o, <<"x " \o o \o "= ", "E", "\n">>) : o \in {BinOps[k] : k \in 1..13}}

Atoms == {Pr("E", "lit " \o t, <<t>>) : t \in {
  "x", "x.y", "1", "0", "1.5", "1e300", "1e400", "1e-7", "1j", "2.5j", "0xFF", "0b101", "1_000", "123456789012345678901234567890",
  "True", "None", "...", "'a'", "\"it's\"", "'\"'", "b'a\\xff'", "b\"\"", "r'\\d'", "'\\n'", "'\\x00'", "''", "u'a'", "'''tri'''",
  "'both \\' and \"'", "'a' 'b'", "'{'", "'torch.abs(x)'", "'# c'", "'\\\\'", "'\\t'", "'é'", "'\\u4e2d'", "()", "[]", "{}",
  "'a long string that does not fit on one line of the output because it has so many words in it that it must be broken somewhere'",
  "\"\"\"two\nlines\"\"\"", "'ends with backslash n\\n'", "f'plain'", "f'{x}'", "f'{x!r}'", "f'{x:>10}'", "f'{{x}}'", "f'{x}' 'b'", "f\"{x['k']}\"", "f'{x=}'",
  "__name__", "_", "self.x"}}

Exprs == Bins \cup Cmps \cup Uns \cup Atoms \cup {
  Pr("E", "and", <<"(", "E", " and ", "E", ")">>), Pr("E", "or", <<"(", "E", " or ", "E", ")">>), Pr("E", "and3", <<"(x and ", "E", " and y)">>),
  Pr("E", "chain", <<"(x < ", "E", " < ", "E", ")">>),
  Pr("E", "ifexp", <<"(", "E", " if ", "E", " else ", "E", ")">>),
  Pr("E", "lambda", <<"(lambda ", "A", ": ", "E", ")">>), Pr("E", "lambda0", <<"(lambda: ", "E", ")">>),
  Pr("E", "call", <<"E", "(", "K", ")">>), Pr("E", "fcall", <<"fn(", "K", ")">>), Pr("E", "attr", <<"(", "E", ").qq">>), Pr("E", "mcall", <<"(", "E", ").qq(", "K", ")">>),
  Pr("E", "sub", <<"(", "E", ")[", "SL", "]">>),
  Pr("E", "tuple1", <<"(", "E", ",)">>), Pr("E", "tuple2", <<"(", "E", ", ", "E", ")">>), Pr("E", "list1", <<"[", "E", "]">>), Pr("E", "list2", <<"[", "E", ", ", "E", "]">>),
  Pr("E", "set", <<"{", "E", ", ", "E", "}">>), Pr("E", "dict", <<"{", "E", ": ", "E", "}">>), Pr("E", "dict2", <<"{'k': ", "E", ", **", "E", "}">>),
  Pr("E", "liststar", <<"[*", "E", ", 1]">>), Pr("E", "tuplestar", <<"(*", "E", ", 1)">>), Pr("E", "setstar", <<"{*", "E", "}">>),
  Pr("E", "listcomp", <<"[", "E", " ", "C", "]">>), Pr("E", "setcomp", <<"{", "E", " ", "C", "}">>), Pr("E", "gen", <<"(", "E", " ", "C", ")">>),
  Pr("E", "dictcomp", <<"{", "E", ": ", "E", " ", "C", "}">>), Pr("E", "gencall", <<"fn(", "E", " ", "C", ")">>),
  Pr("E", "await", <<"(await ", "E", ")">>), Pr("E", "yield", <<"(yield ", "E", ")">>), Pr("E", "yield0", <<"(yield)">>), Pr("E", "yieldfrom", <<"(yield from ", "E", ")">>),
  Pr("E", "walrus", <<"(z := ", "E", ")">>), Pr("E", "fstr", <<"f'''", "F", "'''">>), Pr("E", "fstr2", <<"f\"\"\"a", "F", "b", "F", "c\"\"\"">>)}
Fs == {Pr("F", "fval", <<"{", "E", "}">>), Pr("F", "fconv", <<"{", "E", "!r}">>), Pr("F", "fspec", <<"{", "E", ":>10}">>), Pr("F", "fnest", <<"{x:{", "E", "}.3}">>),
  Pr("F", "ftext", <<"text {{}} ">>), Pr("F", "fquote", <<"it's {x}">>)}
Ks == {Pr("K", "k0", <<"">>), Pr("K", "k1", <<"E">>), Pr("K", "k2", <<"E", ", ", "E">>), Pr("K", "kkw", <<"k=", "E">>), Pr("K", "kmix", <<"E", ", k=", "E">>), Pr("K", "kstar", <<"*", "E">>),
  Pr("K", "kdstar", <<"**", "E">>), Pr("K", "kall", <<"1, *", "E", ", 2, k=3, **", "E">>), Pr("K", "kstar2", <<"*x, *", "E">>), Pr("K", "kdd", <<"**x, k=", "E">>)}
SLs == {Pr("SL", "i", <<"E">>), Pr("SL", "s2", <<"E", ":", "E">>), Pr("SL", "s0", <<":">>), Pr("SL", "s1", <<":", "E">>), Pr("SL", "s3", <<"::", "E">>), Pr("SL", "sall", <<"1:", "E", ":2">>),
  Pr("SL", "it", <<"E", ", ", "E">>), Pr("SL", "mix", <<"..., 1:", "E", ", None">>), Pr("SL", "tup", <<"(1, ", "E", ")">>), Pr("SL", "one", <<"E", ",">>), Pr("SL", "star", <<"*", "E">>)}
Cs == {Pr("C", "c1", <<"for ", "T", " in ", "E">>), Pr("C", "cif", <<"for i in ", "E", " if ", "E">>), Pr("C", "c2", <<"for i in x for j in ", "E">>), Pr("C", "casync", <<"async for i in ", "E">>),
  Pr("C", "cif2", <<"for i in x if i if ", "E">>)}
Ts == {Pr("T", "tn", <<"t">>), Pr("T", "tattr", <<"(", "E", ").t">>), Pr("T", "tsub", <<"(", "E", ")[", "SL", "]">>), Pr("T", "ttup", <<"(t, ", "T", ")">>), Pr("T", "tlist", <<"[t, ", "T", "]">>),
  Pr("T", "tstar", <<"(t, *", "T", ")">>), Pr("T", "tone", <<"(", "T", ",)">>)}
As == {Pr("A", "a0", <<"">>), Pr("A", "a1", <<"a">>), Pr("A", "adef", <<"a, b=", "E">>), Pr("A", "apos", <<"a, /">>), Pr("A", "apos2", <<"a, b=1, /, c=", "E">>), Pr("A", "avar", <<"*a">>), Pr("A", "akw", <<"*, k">>),
  Pr("A", "akwd", <<"a, *, k=", "E", ", l">>), Pr("A", "adk", <<"**kw">>), Pr("A", "aall", <<"a, /, b=1, *c, d, e=", "E", ", **kw">>)}
DOs == {Pr("DO", "do0", <<"">>), Pr("DO", "do1", <<"@", "E", "\n">>), Pr("DO", "do2", <<"@d\n@", "E", "\n">>)}
Simple == Augs \cup {
  Pr("S", "expr", <<"E", "\n">>), Pr("S", "assign", <<"x = ", "E", "\n">>), Pr("S", "assignT", <<"T", " = ", "E", "\n">>), Pr("S", "assign2", <<"x = ", "T", " = ", "E", "\n">>),
  Pr("S", "unpack", <<"a, *b = ", "E", "\n">>), Pr("S", "tupassign", <<"x = ", "E", ", ", "E", "\n">>), Pr("S", "starassign", <<"x = *", "E", ", 1\n">>),
  Pr("S", "ann", <<"x: ", "E", " = ", "E", "\n">>), Pr("S", "ann0", <<"x: ", "E", "\n">>), Pr("S", "annattr", <<"self.x: ", "E", " = 1\n">>), Pr("S", "annpar", <<"(x): ", "E", " = 1\n">>),
  Pr("S", "del", <<"del x, (", "E", ").y\n">>), Pr("S", "del2", <<"del (", "E", ")[", "SL", "]\n">>), Pr("S", "assert", <<"assert ", "E", "\n">>), Pr("S", "assert2", <<"assert ", "E", ", ", "E", "\n">>),
  Pr("S", "raise0", <<"raise\n">>), Pr("S", "raise", <<"raise ", "E", "\n">>), Pr("S", "raise2", <<"raise ", "E", " from ", "E", "\n">>),
  Pr("S", "pass", <<"pass\n">>), Pr("S", "global", <<"global gg, hh\n">>), Pr("S", "import", <<"import xml.dom as p, sys\n">>), Pr("S", "from", <<"from json import (loads as l, dumps)\n">>),
  Pr("S", "fromrel", <<"from . import a\n">>), Pr("S", "fromrel2", <<"from ..p.q import a as b\n">>), Pr("S", "fromstar", <<"from json import *\n">>),
  Pr("S", "semi", <<"x = ", "E", "; y = 1\n">>), Pr("S", "yieldst", <<"x = yield ", "E", "\n">>), Pr("S", "str", <<"'a string statement'\n">>)}
Blk == <<":\n@I@\n", "B", "@D@\n">>
Compound == {
  Pr("S", "if", <<"if ", "E">> \o Blk), Pr("S", "ifelse", <<"if ", "E">> \o Blk \o <<"else">> \o Blk), Pr("S", "elif", <<"if x">> \o Blk \o <<"elif ", "E">> \o Blk \o <<"else">> \o Blk),
  Pr("S", "while", <<"while ", "E">> \o Blk), Pr("S", "whileelse", <<"while ", "E", ":\n@I@\nbreak\n@D@\nelse">> \o Blk), Pr("S", "whilecont", <<"while ", "E", ":\n@I@\ncontinue\n@D@\n">>),
  Pr("S", "for", <<"for ", "T", " in ", "E">> \o Blk), Pr("S", "forelse", <<"for i in ", "E">> \o Blk \o <<"else">> \o Blk), Pr("S", "fortup", <<"for i, *j in ", "E", ", ", "E">> \o Blk),
  Pr("S", "afor", <<"async for ", "T", " in ", "E">> \o Blk), Pr("S", "with", <<"with ", "W">> \o Blk), Pr("S", "awith", <<"async with ", "W">> \o Blk),
  Pr("S", "with2", <<"with ", "W", ", ", "W">> \o Blk), Pr("S", "withpar", <<"with (", "E", " as a, ", "E", " as b)">> \o Blk),
  Pr("S", "try", <<"try">> \o Blk \o <<"H">>), Pr("S", "try2", <<"try">> \o Blk \o <<"H", "H", "else">> \o Blk), Pr("S", "tryfin", <<"try">> \o Blk \o <<"finally">> \o Blk),
  Pr("S", "tryall", <<"try">> \o Blk \o <<"H", "else">> \o Blk \o <<"finally">> \o Blk), Pr("S", "trybare", <<"try">> \o Blk \o <<"except">> \o Blk),
  Pr("S", "def", <<"DO", "def f(", "A", ")">> \o Blk), Pr("S", "adef", <<"DO", "async def f(", "A", ")">> \o Blk), Pr("S", "defann", <<"def f(a: ", "E", ", *b: ", "E", ", c: int = ", "E", ") -> ", "E">> \o Blk),
  Pr("S", "defret", <<"def f():\n@I@\nreturn ", "E", "\n@D@\n">>), Pr("S", "defret0", <<"def f():\n@I@\nreturn\n@D@\n">>), Pr("S", "defdoc", <<"def f():\n@I@\n'''doc'''\n", "B", "@D@\n">>),
  Pr("S", "defnl", <<"def f():\n@I@\ny = 1\ndef g():\n@I@\nnonlocal y\n", "B", "@D@\n@D@\n">>), Pr("S", "defret2", <<"def f():\n@I@\nreturn ", "E", ", *", "E", "\n@D@\n">>),
  Pr("S", "class", <<"DO", "class A">> \o Blk), Pr("S", "classb", <<"class A(", "E", ", ", "E", ")">> \o Blk), Pr("S", "classkw", <<"class A(x, *", "E", ", metaclass=", "E", ", **", "E", ")">> \o Blk),
  Pr("S", "classdoc", <<"class A:\n@I@\n'''doc\n  more'''\n", "B", "@D@\n">>)}
Ws == {Pr("W", "w1", <<"E">>), Pr("W", "was", <<"E", " as ", "T">>)}
Hs == {Pr("H", "h1", <<"except ", "E">> \o Blk), Pr("H", "has", <<"except ", "E", " as e">> \o Blk), Pr("H", "htup", <<"except (A, ", "E", ")">> \o Blk)}
Bs == {Pr("B", "b1", <<"S">>), Pr("B", "b2", <<"S", "S">>), Pr("B", "b3", <<"x = 1\n", "S", "x = 2\n">>)}
New == {
  Pr("S", "match", <<"match ", "E", ":\n@I@\ncase ", "P">> \o Blk \o <<"case _">> \o Blk \o <<"@D@\n">>), Pr("S", "matchif", <<"match x, y:\n@I@\ncase ", "P", " if ", "E">> \o Blk \o <<"@D@\n">>),
  Pr("S", "trystar", <<"try">> \o Blk \o <<"except* ", "E", " as e">> \o Blk \o <<"except* (A, B)">> \o Blk \o <<"else">> \o Blk \o <<"finally">> \o Blk),
  Pr("S", "type", <<"type X = ", "E", "\n">>), Pr("S", "type2", <<"type X[", "TP", "] = ", "E", "\n">>), Pr("S", "defT", <<"def f[", "TP", "](", "A", ") -> T">> \o Blk), Pr("S", "classT", <<"class A[", "TP", "](", "E", ")">> \o Blk),
  Pr("S", "defstarann", <<"def f(*args: *", "E", ")">> \o Blk),
  Pr("TP", "tp1", <<"T">>), Pr("TP", "tp2", <<"T: ", "E", ", *Ts, **Q">>),
  Pr("P", "pn", <<"q">>), Pr("P", "p_", <<"_">>), Pr("P", "pc", <<"1">>), Pr("P", "pneg", <<"-1">>), Pr("P", "pcomplex", <<"1 + 2j">>), Pr("P", "pstr", <<"'a' 'b'">>), Pr("P", "pnone", <<"None">>), Pr("P", "pval", <<"x.y">>),
  Pr("P", "plist", <<"[", "P", ", *_]">>), Pr("P", "ptup", <<"(", "P", ", *r)">>), Pr("P", "pone", <<"(", "P", ",)">>), Pr("P", "popen", <<"1, ", "P">>), Pr("P", "pempty", <<"[]">>), Pr("P", "pmap", <<"{'k': ", "P", ", **r}">>), Pr("P", "pmap0", <<"{}">>),
  Pr("P", "pcls", <<"x.A(", "P", ", k=", "P", ")">>), Pr("P", "pcls0", <<"A()">>), Pr("P", "por", <<"(1 | ", "P", ")">>), Pr("P", "pas", <<"(", "P", " as w)">>)}
TorchUses == {
  Pr("E", "t.abs", <<"torch.abs(", "E", ")">>), Pr("E", "t.name", <<"[", "torch.float32", "]">>), Pr("E", "t.fn", <<"fn(", "torch.exp", ", ", "E", ")">>),
  Pr("E", "t.meth", <<"(", "E", ").abs()">>), Pr("E", "t.kw", <<"torch.celu(", "E", ", alpha=", "E", ")">>), Pr("E", "t.chain", <<"torch.exp(", "E", ")[0].vdot(", "E", ")">>),
  Pr("E", "t.cls", <<"(", "torch.nn.Module", ", 1)">>), Pr("E", "t.star", <<"torch.exp(*", "E", ")">>), Pr("E", "t.dstar", <<"torch.sin(**", "E", ")">>),
  Pr("E", "t.foo", <<"torch.foo_bar(", "E", ")">>), Pr("E", "t.ren", <<"torch.conj_physical(input=", "E", ")">>), Pr("E", "t.sub", <<"torch.distributions.kl.register_kl(", "E", ", type_q=", "E", ")[0]">>),
  Pr("S", "t.class", <<"class A(", "torch.nn.Module", ")">> \o Blk), Pr("S", "t.ann", <<"x: ", "torch.Tensor", " = ", "E", "\n">>), Pr("S", "t.deco", <<"@", "torch.no_grad", "()\ndef f(x: ", "torch.Tensor", ")">> \o Blk),
  Pr("S", "t.with", <<"with ", "torch.no_grad", "()">> \o Blk), Pr("S", "t.isin", <<"isinstance(", "E", ", ", "torch.Tensor", ")\n">>),
  Pr("S", "t.import", <<"import torch.nn\nx = 1\n">>)}

\* the texts that conversion replaces
ImageOf == ("torch.abs(" :> "paddle.abs(") @@ ("torch.float32" :> "paddle.float32") @@ ("torch.exp" :> "paddle.exp") @@ ("torch.celu(" :> "paddle.nn.functional.celu(x=") @@ ("torch.exp(" :> "paddle.exp(") @@ (")[0].vdot(" :> ")[0].dot(y=") @@ ("torch.Tensor" :> "paddle.Tensor") @@ ("torch.no_grad" :> "paddle.no_grad") @@ ("torch.nn.Module" :> "paddle.nn.Module") @@ ("torch.exp(*" :> "paddle.exp(*") @@ ("torch.sin(**" :> "paddle.sin(**") @@ ("torch.conj_physical(input=" :> "paddle.conj(x=") @@ ("torch.distributions.kl.register_kl(" :> "paddle.distribution.register_kl(cls_p=") @@ (", type_q=" :> ", cls_q=") @@ ("import torch.nn\nx = 1\n" :> "x = 1\n")
Image(t) == IF t \in DOMAIN ImageOf THEN ImageOf[t] ELSE t

\* values of other libraries: whatever their methods are called, they are not tensors
Others == {
  Pr("E", "other", <<"O">>), Pr("E", "disp", <<"M">>),
  Pr("O", "o.np", <<"np.array(", "K", ")">>), Pr("O", "o.fn", <<"make(", "K", ")">>), Pr("O", "o.cls", <<"Cls.build(", "K", ")">>), Pr("O", "o.deep", <<"aa.bb.cc.f(", "E", ")">>), Pr("O", "o.as", <<"nrm(", "E", ")">>),
  Pr("O", "o.attr", <<"np.vdot.T">>), Pr("O", "o.name", <<"np.median">>), Pr("O", "o.fmax", <<"np.max(", "E", ", 1)">>),
  
  \* constants, displays, comprehensions and functions are no tensors either
  Pr("O", "o.str", <<"'a b'">>), Pr("O", "o.bytes", <<"b'a'">>), Pr("O", "o.num", <<"(1.5)">>), Pr("O", "o.fstr", <<"f, , ">>), Pr("O", "o.none", <<"(None)">>),
  Pr("D", "d.list", <<"[", "E", ", ", "E", "]">>), Pr("D", "d.tuple", <<"(", "E", ", ", "E", ")">>), Pr("D", "d.set", <<"{", "E", ", ", "E", "}">>), Pr("D", "d.dict", <<"{", "E", ": ", "E", "}">>),
  Pr("D", "d.lcomp", <<"[", "E", " ", "C", "]">>), Pr("D", "d.scomp", <<"{", "E", " ", "C", "}">>), Pr("D", "d.gen", <<"(", "E", " ", "C", ")">>), Pr("D", "d.dcomp", <<"{", "E", ": ", "E", " ", "C", "}">>),
  Pr("D", "d.lambda", <<"(lambda: ", "E", ")">>), Pr("D", "d.add", <<"(", "D", " + ", "E", ")">>), Pr("D", "d.radd", <<"(", "E", " + ", "D", ")">>), Pr("D", "d.mul", <<"(", "D", " * ", "E", ")">>), Pr("D", "d.eq", <<"(", "E", " == ", "D", ")">>),
  Pr("M", "dm.sort", <<"D", ".sort()">>), Pr("M", "dm.values", <<"D", ".values()">>), Pr("M", "dm.index", <<"D", ".index_select(", "E", ")">>), Pr("M", "dm.vdot", <<"D", ".vdot(", "K", ")">>), Pr("M", "dm.T", <<"D", ".T">>), Pr("M", "dm.names", <<"D", ".requires_grad">>),
  Pr("O", "o.sort", <<"O", ".sort()">>), Pr("O", "o.values", <<"O", ".values()">>), Pr("O", "o.split", <<"O", ".split(", "E", ")">>), Pr("O", "o.requires", <<"O", ".requires_grad">>),
  Pr("O", "o.vdot", <<"O", ".vdot(", "E", ")">>), Pr("O", "o.median", <<"O", ".median(dim=", "E", ")">>), Pr("O", "o.max", <<"O", ".max(", "K", ")">>), Pr("O", "o.ger", <<"O", "[1].ger(", "E", ")">>),
  Pr("O", "o.neg", <<"(-", "O", ").vdot(", "E", ")">>), Pr("O", "o.add", <<"(", "O", " + ", "O", ").vdot(x)">>), Pr("O", "o.eq", <<"(", "O", " == ", "O", ").median(dim=1)">>), Pr("O", "o.field", <<"O", ".field.vdot(", "E", ")">>),
  Pr("O", "o.sub", <<"O", "[", "SL", "].max(1)">>), Pr("O", "o.T", <<"O", ".T">>), Pr("O", "o.size", <<"O", ".size(", "K", ")">>), Pr("O", "o.type", <<"O", ".type(", "E", ")">>)}

Prods == Exprs \cup Fs \cup Ks \cup SLs \cup Cs \cup Ts \cup As \cup DOs \cup Simple \cup Compound \cup Ws \cup Hs \cup Bs
         \cup (IF NewSyntax THEN New ELSE {}) \cup (IF Torch THEN TorchUses ELSE {}) \cup (IF Other THEN Others ELSE {})
BySort == [s \in Sorts |-> {p \in Prods : p.s = s}]
IsSort(i) == i \in Sorts
Closed(p) == \A k \in 1..Len(p.i) : ~IsSort(p.i[k])
ClosedBySort == [s \in Sorts |-> {p \in BySort[s] : Closed(p)}]
\* default derivations of the sorts that have no closed production
Default == [E |-> <<"x">>, S |-> <<"x = 1\n">>, B |-> <<"pass\n">>, T |-> <<"t">>, C |-> <<"for i in x">>, A |-> <<"a">>, K |-> <<"x">>, SL |-> <<"1">>, P |-> <<"q">>,
            H |-> <<"except A:\n@I@\npass\n@D@\n">>, W |-> <<"x">>, F |-> <<"{x}">>, TP |-> <<"T">>, DO |-> <<"">>, O |-> <<"np.array(x)">>, D |-> <<"[x, 1]">>, M |-> <<"[x, 1].vdot(x)">>]

VARIABLES stack, src, img, used
vars == <<stack, src, img, used>>
\* a stack entry: an item with its depth and whether it is to be developed
It(i, d, o) == [i |-> i, d |-> d, o |-> o]
Init == stack = <<It(Top, 0, TRUE)>> /\ src = "" /\ img = "" /\ used = {}
Front == stack[1]
\* terminals at the front are written at once
RECURSIVE Flush(_, _, _)
Flush(st, a, b) == IF st = <<>> \/ IsSort(st[1].i) THEN [st |-> st, a |-> a, b |-> b] ELSE Flush(Tail(st), a \o st[1].i, b \o Image(st[1].i))
Apply(st) == LET q == Flush(st, src, img) IN stack' = q.st /\ src' = q.a /\ img' = q.b
Slots(p) == {k \in 1..Len(p.i) : IsSort(p.i[k])}
Push(p, d, open) == [k \in 1..Len(p.i) |-> It(p.i[k], d, k \in open)] \o Tail(stack)
Close == /\ stack # <<>> /\ IsSort(Front.i) /\ (~Front.o \/ Front.d >= MaxDepth)
         /\ \E p \in IF ~Front.o \/ Spine \/ ClosedBySort[Front.i] = {} THEN {Pr(Front.i, "", Default[Front.i])} ELSE ClosedBySort[Front.i] :
              /\ Apply(Push(p, Front.d + 1, {}))
              /\ used' = used \cup ({p.n} \ {""})
Develop == /\ stack # <<>> /\ IsSort(Front.i) /\ Front.o /\ Front.d < MaxDepth
           /\ \E p \in BySort[Front.i] :
                /\ \E open \in (IF Spine /\ Slots(p) # {} THEN {{k} : k \in Slots(p)} ELSE {Slots(p)}) :
                     Apply(Push(p, Front.d + 1, open))
                /\ used' = used \cup {p.n}
Next == Close \/ Develop
Spec == Init /\ [][Next]_vars
Done == stack = <<>> /\ (Only = {} \/ used \cap Only # {})
\* without uses of PyTorch the image is the program itself
Homomorphic == (stack = <<>> /\ ~Torch) => src = img
EmitDone == Done => PrintT("@CASE " \o ToJson([src |-> src, img |-> img, used |-> used]))
=============================================================================
