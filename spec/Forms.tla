------------------------------- MODULE Forms -------------------------------
(***************************************************************************)
(* The ways a name can be used in a program: read, called, written,        *)
(* deleted, bound by a loop or a with statement, decorated, inherited from,*)
(* awaited, ...  Every API of the mapping is put into every form; whatever *)
(* the rule of the API is, the result must be a program.                   *)
(* `@` is the name; what the place accepts restricts what may replace it:  *)
(*   "load" any expression, "store" only names, attributes, subscripts,    *)
(*   "call" the API is called, "stmt" a call in a place before which       *)
(*   statements may have to be put.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
F(k, t) == [kind |-> k, text |-> t]
Store == {F("store", t) : t \in {"@ = y", "@ += y", "del @", "for @ in y: pass", "with z as @: pass", "(@, q) = y", "[*@] = y", "@: int = 1", "q = @ = y", "for (a, @) in y: pass",
                                 "del (q, @)", "async def f():\n    async for @ in y: pass", "with z as (@, q): pass"}}
StoreIn == {F("store", t) : t \in {"@.foo = 1", "@[0] = 1", "del @.foo", "del @[0]", "@.foo += 1", "@[1:2] = y", "for @[0] in y: pass", "@.foo: int"}}
Load == {F("load", t) : t \in {"@", "@.foo", "z = @", "class A(@): pass", "class A(z, metaclass=@): pass", "def f(a=@, *, b=@): pass", "def f(a: @) -> @: pass", "y: @", "y: @ = 1",
                               "if @: pass", "return_ = not @", "z[@]", "z[@:@]", "@ if @ else @", "f'{@}'", "fn(*@)", "fn(**@)", "fn(k=@)", "[*@]", "{**@}", "{@: @}", "{@}", "(@,)",
                               "assert @", "raise @", "raise @ from @", "try:\n    pass\nexcept @: pass", "try:\n    pass\nexcept (@, z): pass", "lambda: @", "lambda q=@: q", "[@ for q in y]",
                               "[q for q in @ if @]", "@ < @ < @", "@ and @", "-@", "@ \\@ @", "for q in @: pass", "while @: break", "with @: pass", "with @ as q: pass", "@\n@", "x: @[@] = @",
                               "match y:\n    case @: pass", "match @:\n    case 1: pass", "global q; q = @", "type X = @", "def f():\n    yield @", "def f():\n    yield from @",
                               "async def f():\n    await @", "(q := @)", "isinstance(z, @)", "isinstance(z, (@, int))", "issubclass(z, @)", "@.__name__", "hasattr(@, 'foo')", "getattr(@, 'foo')(1)",
                               "setattr(@, 'foo', y)", "@\ndef f(): pass", "print(@, end='')"}}
Dec == {F("load", t) : t \in {"\\@\ndef f(): pass", "\\@\nclass A: pass", "\\@\nasync def f(): pass", "\\@z\n\\@\ndef f(): pass"}}
Call == {F("call", t) : t \in {"@()", "z = @()", "z = @(a)", "@(a, *b, **c)", "z = @.foo()", "z = @()()", "@()[0]", "@().foo", "@(a).foo = 1", "@()[0] = 1", "lambda: @()", "z = [@() for q in y]",
                               "assert @()", "assert a, @(b)", "z = x[@(a)]", "z[@(a):@(b)] = 1", "async def f():\n    await @()", "z = @(a) if b else @(c)", "if @(a): pass\nelif @(b): pass",
                               "while @(a): break", "for i in @(a): pass", "for i in z: @(i)", "with @(a) as b, @(c): pass", "try:\n    @(a)\nexcept @: pass", "try:\n    pass\nfinally:\n    @(a)",
                               "try:\n    pass\nexcept* z:\n    @(a)", "match @(a):\n    case 1: @(b)", "match a:\n    case 1 if @(a): pass", "\\@()\ndef f(): pass", "\\@(a)\nclass A: pass",
                               "class A(@()): pass", "class A:\n    z = @(a)", "def f(a=@()): pass", "def f(): return @(a)", "def f(): yield @(a)", "global q; q = @(c).foo", "return_ = -@(c)",
                               "@(@(a))", "@(a)\n@(b)", "@(a); @(b)", "x += @(a)", "x: int = @(a)", "del @(a).foo", "raise @(a)", "z = {@(a): @(b)}", "f'{@(a)}'", "f'{@(a)!r:>{@(b)}}'", "fn(*@(a))",
                               "fn(k=@(a))", "(q := @(a))", "if (q := @(a)): pass", "z = a and @(b)", "z = @(a) < @(b)", "z = (@(a), @(b))", "a, b = @(c)", "z = @(a).foo(b)", "z = @(a)(b)", "z = @(a) + 1",
                               "if a: @(b)\nelse: @(c)", "def f():\n    if a:\n        return @(b)\n    @(c)", "type X = @(a)", "z = [i for i in @(a)]", "z = [i for i in y if @(i)]", "z = lambda q: @(q)"}}
Sep == {F("call", t) : t \in {"z = @(a, b, c)", "z = @(a, k=b)", "z = @(a, out=b)", "z = @(a, dtype=b)", "z = @(a, requires_grad=True)", "z = @(a, 1, device=b, dtype=c)", "z = @(input=a)", "z = @(*a)",
                              "z = @(**a)", "z = @(a, b, inplace=True)", "z = @(a, pin_memory=True)", "z = @(a, (b, c), d)", "z = @(a, dim=-1, keepdim=True)", "z = @(size=a, out=b)",
                              "z = @(lambda: 1)", "z = @('a', b'c')", "z = @(a[1:2])", "z = @(-1)", "z = @(a if b else c)", "z = @(not a, b < c)", "z = @((yield))", "z = @([1, 2], {3: 4})", "z = @((q := 1), q)"}}
All == Store \cup StoreIn \cup Load \cup Dec \cup Call \cup Sep
VARIABLES form
Init == form \in All
Next == UNCHANGED form
Emit == PrintT("@CASE " \o ToJson(form))
=============================================================================
