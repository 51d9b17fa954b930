"""Places an expression can stand in.  {E} is the expression; the templates are whole
programs (without imports).  'multi' templates contain other statements around it."""
CTX = {
    "expr": "{E}\n",
    "assign": "y = {E}\n",
    "assign2": "y = w = {E}\n",
    "tupassign": "y, w = {E}, 1\n",
    "aug": "y += {E}\n",
    "ann": "y: int = {E}\n",
    "attrassign": "obj.y = {E}\n",
    "subassign": "d[0] = {E}\n",
    "arg": "fn({E})\n",
    "arg2": "fn(1, {E}, 2)\n",
    "kwarg": "fn(k={E})\n",
    "kwarg2": "fn(1, k=2, m={E}, n=3)\n",
    "starred": "fn(*{E})\n",
    "kwstar": "fn(**{E})\n",
    "list": "y = [1, {E}, 2]\n",
    "tuple": "y = (1, {E})\n",
    "set": "y = {{1, {E}}}\n",
    "dictval": "y = {{'a': 1, 'b': {E}}}\n",
    "dictkey": "y = {{{E}: 1}}\n",
    "dictstar": "y = {{**{E}}}\n",
    "index": "y = d[{E}]\n",
    "slice": "y = d[{E}:3, ...]\n",
    "slicestep": "y = d[::{E}]\n",
    "binl": "y = {E} + 1\n",
    "binr": "y = 1 ** {E}\n",
    "matmul": "y = d @ {E}\n",
    "unary": "y = -{E}\n",
    "not": "y = not {E}\n",
    "cmpl": "y = {E} < 3\n",
    "cmpr": "y = 1 < 2 <= {E}\n",
    "isnot": "y = {E} is not None\n",
    "in": "y = 1 in {E}\n",
    "and": "y = d and {E}\n",
    "or": "y = {E} or d\n",
    "iftest": "y = 1 if {E} else 2\n",
    "ifbody": "y = {E} if d else 2\n",
    "iforelse": "y = 1 if d else {E}\n",
    "walrus": "if (y := {E}):\n    pass\n",
    "fstr": "y = f'a {{{E}}} b'\n",
    "fstrspec": "y = f'{{{E}:>10}} q'\n",
    "fstrconv": "y = f'{{{E}!r}}'\n",
    "return": "def f(x):\n    return {E}\n",
    "yield": "def f(x):\n    yield {E}\n",
    "yieldfrom": "def f(x):\n    yield from {E}\n",
    "await": "async def f(x):\n    return await {E}\n",
    "asyncfor": "async def f(x):\n    async for i in {E}:\n        fn(i)\n",
    "asyncwith": "async def f(x):\n    async with {E} as q:\n        fn(q)\n",
    "asyncbody": "async def f(x):\n    fn(1)\n    y = {E}\n    return y\n",
    "if": "if {E}:\n    fn(1)\n",
    "elif": "if d:\n    fn(1)\nelif {E}:\n    fn(2)\nelse:\n    fn(3)\n",
    "ifb": "if d:\n    y = {E}\n",
    "else": "if d:\n    fn(1)\nelse:\n    y = {E}\n",
    "elifb": "if d:\n    fn(1)\nelif w:\n    y = {E}\n",
    "while": "while {E}:\n    fn(1)\n",
    "whileb": "while d:\n    y = {E}\n    fn(1)\n",
    "whileelse": "while d:\n    fn(1)\nelse:\n    y = {E}\n",
    "for": "for i in {E}:\n    fn(i)\n",
    "forb": "for i in d:\n    y = {E}\n",
    "forelse": "for i in d:\n    fn(i)\nelse:\n    y = {E}\n",
    "with": "with {E} as q:\n    fn(q)\n",
    "with2": "with open(d) as r, {E}:\n    fn(r)\n",
    "withb": "with open(d) as r:\n    y = {E}\n",
    "assert": "assert {E}\n",
    "assertmsg": "assert d, {E}\n",
    "raise": "raise {E}\n",
    "raisefrom": "raise ValueError(1) from {E}\n",
    "try": "try:\n    y = {E}\nexcept ValueError:\n    fn(1)\n",
    "except": "try:\n    fn(1)\nexcept ValueError:\n    y = {E}\n",
    "tryelse": "try:\n    fn(1)\nexcept ValueError:\n    fn(2)\nelse:\n    y = {E}\n",
    "finally": "try:\n    fn(1)\nfinally:\n    y = {E}\n",
    "del": "del d[{E}]\n",
    "default": "def f(x, k={E}):\n    return k\n",
    "kwdefault": "def f(x, *, k={E}):\n    return k\n",
    "argann": "def f(x: {E}):\n    return x\n",
    "retann": "def f(x) -> {E}:\n    return x\n",
    "decor": "@{E}\ndef f(x):\n    return x\n",
    "decor2": "@fn\n@{E}\ndef f(x):\n    return x\n",
    "clsdecor": "@{E}\nclass A:\n    k = 1\n",
    "asyncdecor": "@{E}\nasync def f(x):\n    return x\n",
    "base": "class A(fn, {E}):\n    k = 1\n",
    "basekw": "class A(metaclass={E}):\n    k = 1\n",
    "clsbody": "class A:\n    k = {E}\n    m = 2\n",
    "method": "class A:\n    def f(self, x):\n        fn(1)\n        y = {E}\n        return y\n",
    "init": "class A(B):\n    def __init__(self, x):\n        super().__init__()\n        self.q = {E}\n",
    "nested": "def f(x):\n    def g(y):\n        if y:\n            for i in y:\n                w = {E}\n        return w\n    return g\n",
    "lambda": "y = lambda q: {E}\n",
    "lambdadef": "y = lambda q={E}: q\n",
    "listcomp": "y = [{E} for i in d]\n",
    "compiter": "y = [i for i in {E}]\n",
    "compif": "y = [i for i in d if {E}]\n",
    "setcomp": "y = {{{E} for i in d}}\n",
    "dictcomp": "y = {{i: {E} for i in d}}\n",
    "dictcompkey": "y = {{{E}: i for i in d}}\n",
    "gen": "y = fn({E} for i in d)\n",
    "print": "print('text', {E})\n",
    "chain": "y = fn({E})[0].qq_zz\n",
    "semi": "fn(1); y = {E}; fn(2)\n",
    "docfn": "def f(x):\n    '''doc torch.abs(x) text'''\n    return {E}\n",
    "longcall": "y = fn(aaaaaaaaaaaaaaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb, ccccccccccccccccccccccccc, {E}, ddddddddddddddddd)\n",
    "longkw": "y = fn(aaaaaaaaaaaaaaaaaaaaaaaaaaaa, torch=bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb, torchvision=ccccccccccccccccccccccccc, k={E}, torch_x=ddddddddddddddddd)\n",
    "longdict": "y = {{'torch.aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa': bbbbbbbbbbbbbbbbbbbbbbbbbbb, 'torch': q.torch, 'cccccccccccccccccc': q.torch.cccc, 'e': {E}}}\n",
    "selftorch": "def f(self):\n    self.torch = {E}\n    self.torch.nn.x = self.torch\n",
    "kwtorch": "def f(torch=None, *, torch_b={E}):\n    return fn(torch_b)\n",
    "longbin": "y = aaaaaaaaaaaaaaaaaaaaaaaaaaaa + bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb * ccccccccccccccccccccccccc - {E} + ddddddddddddddddd\n",
    "longtext": "y = fn('a very long text with torch.abs(x) in it and more words to make the line really long', {E}, 'more')\n",
    "triple": "y = fn('''text\ntorch.abs(x)\n''', {E})\n",
    "after": "fn(1)\ny = {E}\nfn(2)\n",
    "parens": "y = (\n    aaa +\n    {E} +\n    bbb\n)\n",
    "ifmain": "if __name__ == '__main__':\n    y = {E}\n",
    "tryinfn": "def f(x):\n    try:\n        if x:\n            return {E}\n    except Exception as e:\n        raise\n    finally:\n        fn(1)\n",
    "deepif": "def f(x):\n    if x:\n        if d:\n            pass\n        else:\n            with open(x) as r:\n                while r:\n                    y = {E}\n    return x\n",
    "global": "def f(x):\n    global y\n    y = {E}\n",
    "returnt": "def f(x):\n    return 1, {E}\n",
    "ternchain": "y = 1 if d else 2 if {E} else 3\n",
    "nestcall": "y = fn(gn(hn(1, [{E}])))\n",
    "strjoin": "y = 'a'.join({E})\n",
    "fmt": "y = '{{}} torch.x'.format({E})\n",
    "percent": "y = '%s torch.abs' % {E}\n",
}


def prog(ctx, e):
    return CTX[ctx].format(E=e)
