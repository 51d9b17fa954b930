-------------------------------- MODULE Uses --------------------------------
(***************************************************************************)
(* API uses and what a conversion makes of them.                           *)
(*                                                                         *)
(* A use is an expression with one operand: an argument (pos "arg"), a     *)
(* receiver (pos "recv"), or none (pos "leaf").  Uses nest: a chain        *)
(* <<k1, ..., kn>> is use k1 whose operand is use k2, and so on; the       *)
(* operand of kn is a plain expression.  Every kind says how it is         *)
(* written (ip operand iq), what it converts to (op operand oq), how it    *)
(* counts ("s" converted, "f" not supported, "n" not a PyTorch API), under *)
(* which name it is listed, and how an unconverted one shows: its package  *)
(* name stays in the text ("line"), or it belongs to an object and its     *)
(* statement is annotated ("stmt").  keep: minimal mode leaves it alone.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

U(ip, iq, op, oq, pos, cnt, api, ukey, vis, keep) ==
  [ip |-> ip, iq |-> iq, op |-> op, oq |-> oq, pos |-> pos, cnt |-> cnt, api |-> api, ukey |-> ukey, vis |-> vis, keep |-> keep]
Same(ip, iq, pos, cnt, api, ukey, vis) == U(ip, iq, ip, iq, pos, cnt, api, ukey, vis, FALSE)
\* converts by its package name only
Pfx(t, p, iq, api) == U(t, iq, p, iq, "arg", "s", api, "", "", TRUE)

K == [
  abs   |-> Pfx("torch.abs(", "paddle.abs(", ")", "torch.abs"),
  relu  |-> Pfx("torch.nn.functional.relu(", "paddle.nn.functional.relu(", ")", "torch.nn.functional.relu"),
  add2  |-> Pfx("torch.add(q, ", "paddle.add(q, ", ")", "torch.add"),
  addk  |-> Pfx("torch.add(q, other=", "paddle.add(q, other=", ")", "torch.add"),
  cat   |-> Pfx("torch.cat([", "paddle.cat([", ", q], dim=1)", "torch.cat"),
  sumk  |-> Pfx("torch.sum(", "paddle.sum(", ", dim=1, keepdim=True)", "torch.sum"),
  dtyp  |-> Pfx("torch.zeros(2, 3, dtype=", "paddle.zeros(2, 3, dtype=", ")", "torch.zeros"),
  sgd   |-> Pfx("torch.optim.SGD(", "paddle.optim.SGD(", ", lr=0.1)", "torch.optim.SGD"),
  datal |-> Pfx("torch.utils.data.DataLoader(", "paddle.utils.data.DataLoader(", ", batch_size=2)", "torch.utils.data.DataLoader"),
  avgp  |-> U("torch.avg_pool1d(", ", 2)", "paddle.nn.functional.avg_pool1d(x=", ", kernel_size=2, exclusive=False)", "arg", "s", "torch.nn.functional.avg_pool1d", "", "", FALSE),
  lin   |-> U("torch.nn.Linear(", ", 3)", "paddle.compat.nn.Linear(", ", 3)", "arg", "s", "torch.nn.Linear", "", "", FALSE),
  load  |-> U("torch.load(", ")", "paddle.load(path=str(", "))", "arg", "s", "torch.load", "", "", FALSE),
  lu    |-> U("torch.lu(", ")", "paddle.linalg.lu(x=", ")", "arg", "s", "torch.lu", "", "", FALSE),
  lae   |-> U("torch.logaddexp2(", ", q)", "paddle.log2(2.0 ** (", ") + 2.0 ** q)", "arg", "s", "torch.logaddexp2", "", "", FALSE),
  jits  |-> U("torch.jit.save(", ", q)", "paddle.jit.save(layer=", ", path=q.rsplit('.', 1)[0])", "arg", "s", "torch.jit.save", "", "", FALSE),
  hubl  |-> U("torch.hub.load(", ")", "paddle.hub.load(", ")", "arg", "s", "torch.hub.load", "", "", FALSE),
  eino  |-> U("einops.layers.torch.Rearrange(", ")", "einops.layers.paddle.Rearrange(", ")", "arg", "s", "einops.layers.torch.Rearrange", "", "", FALSE),
  tvc   |-> U("torchvision.transforms.Compose(", ")", "paddle.vision.transforms.Compose(", ")", "arg", "s", "torchvision.transforms.Compose", "", "", FALSE),
  tok   |-> U("transformers.AddedToken(", ")", "paddleformers.transformers.AddedToken(", ")", "arg", "s", "transformers.AddedToken", "", "", FALSE),
  maxi  |-> U("torch.max(", ", q)", "paddle.compat.max(", ", q)", "arg", "s", "torch.max", "", "", FALSE),
  \* other names for APIs
  acos  |-> Pfx("torch.arccos(", "paddle.acos(", ")", "torch.acos"),
  pixs  |-> Pfx("torch.pixel_shuffle(", "paddle.nn.functional.pixel_shuffle(", ", 2)", "torch.nn.functional.pixel_shuffle"),
  avgpo |-> U("torch.avg_pool1d(", ", 2)", "paddle.nn.functional.avg_pool1d(x=", ", kernel_size=2, exclusive=False)", "arg", "s", "torch.nn.functional.avg_pool1d", "", "", FALSE),
  macos |-> U("", ".arccos()", "", ".acos()", "recv", "s", "torch.Tensor.arccos", "", "", TRUE),
  relum |-> U("torch.nn.modules.activation.ReLU", "", "paddle.nn.ReLU", "", "leaf", "s", "torch.nn.ReLU", "", "", TRUE),
  timm  |-> Pfx("timm.models.layers.trunc_normal_(", "paddle.nn.init.trunc_normal_(", ", std=0.02)", "torch.nn.init.trunc_normal_"),
  timml |-> U("timm.models.layers.trunc_normal_", "", "paddle.nn.init.trunc_normal_", "", "leaf", "s", "torch.nn.init.trunc_normal_", "", "", TRUE),
  \* the same under a name imported for itself
  babs  |-> Pfx("absq(", "paddle.abs(", ")", "torch.abs"),
  brelu |-> Pfx("reluq(", "paddle.nn.functional.relu(", ")", "torch.nn.functional.relu"),
  bavgp |-> U("avgpq(", ", 2)", "paddle.nn.functional.avg_pool1d(x=", ", kernel_size=2, exclusive=False)", "arg", "s", "torch.nn.functional.avg_pool1d", "", "", FALSE),
  bf32  |-> U("f32q", "", "paddle.float32", "", "leaf", "s", "torch.float32", "", "", TRUE),
  bfoo  |-> U("fooq(", ")", "torch.foo_bar(", ")", "arg", "f", "torch.foo_bar", "torch.foo_bar", "line", FALSE),
  bafoo |-> U("afooq", "", "torch.foo_attr", "", "leaf", "f", "torch.foo_attr", "torch.foo_attr", "line", FALSE),
  \* no counterpart
  foo   |-> Same("torch.foo_bar(", ")", "arg", "f", "torch.foo_bar", "torch.foo_bar", "line"),
  fook  |-> Same("torch.zed.foo_kw(1, k=", ", m=2)", "arg", "f", "torch.zed.foo_kw", "torch.zed.foo_kw", "line"),
  eig   |-> Same("torch.eig(", ")", "arg", "f", "torch.eig", "torch.eig", "line"),
  zeta  |-> Same("torch.special.zeta(q, ", ")", "arg", "f", "torch.special.zeta", "torch.special.zeta", "line"),
  modf  |-> Same("torch.nn.Module.foo_m(", ")", "arg", "f", "torch.nn.Module.foo_m", "torch.nn.Module.foo_m", "line"),
  tv    |-> Same("torchvision.zed.foo(", ")", "arg", "f", "torchvision.zed.foo", "torchvision.zed.foo", "line"),
  trf   |-> Same("transformers.Foo(", ")", "arg", "f", "transformers.Foo", "transformers.Foo", "line"),
  onnx  |-> Same("torch.onnx.export(", ", q, r)", "arg", "f", "torch.onnx.export", "torch.onnx.export", "line"),
  star  |-> Same("torch.corrcoef(*", ")", "arg", "f", "torch.corrcoef", "torch.corrcoef", "line"),
  \* does not fit the API: not counted, but its package name stays
  mis   |-> Same("torch.corrcoef(", ", 2, 3)", "arg", "n", "", "", "line"),
  \* methods and attributes of objects
  mabs  |-> Same("", ".abs()", "recv", "s", "torch.Tensor.abs", "", ""),
  mview |-> Same("", ".view(2, 3)", "recv", "s", "torch.Tensor.view", "", ""),
  mcuda |-> Same("", ".cuda()", "recv", "s", "torch.Tensor.cuda", "", ""),
  mtype |-> U("", ".type(q)", "", ".astype(q)", "recv", "s", "torch.Tensor.type", "", "", FALSE),
  madd  |-> Same("q.add(", ")", "arg", "s", "torch.Tensor.add", "", ""),
  mlsd  |-> Same("q.load_state_dict(", ")", "arg", "s", "torch.nn.Module.load_state_dict", "", ""),
  \* a method called through its class
  sdot  |-> U("Base.vdot(self, ", ")", "Base.dot(self, y=", ")", "arg", "s", "torch.Tensor.vdot", "", "", FALSE),
  sdotk |-> U("Base.vdot(self, other=", ")", "Base.dot(self, y=", ")", "arg", "s", "torch.Tensor.vdot", "", "", FALSE),
  stype |-> U("Base.type(self, ", ")", "Base.astype(self, ", ")", "arg", "s", "torch.Tensor.type", "", "", FALSE),
  \* its counterpart has no place for self
  slae  |-> Same("Base.logaddexp2(self, ", ")", "arg", "f", "torch.Tensor.logaddexp2", "*.logaddexp2", "stmt"),
  slsd  |-> Same("Base.load_state_dict(self, strict=", ", state_dict=d)", "arg", "s", "torch.nn.Module.load_state_dict", "", ""),
  mT    |-> Same("", ".T", "recv", "s", "torch.Tensor.T", "", ""),
  adev  |-> Same("", ".device", "recv", "s", "torch.Tensor.device", "", ""),
  aspa  |-> U("", ".is_sparse", "", ".is_sparse()", "recv", "s", "torch.Tensor.is_sparse", "", "", FALSE),
  mshar |-> Same("", ".is_shared()", "recv", "f", "torch.Tensor.is_shared", "*.is_shared", "stmt"),
  malig |-> Same("q.align_as(", ")", "arg", "f", "torch.Tensor.align_as", "*.align_as", "stmt"),
  aname |-> Same("", ".names", "recv", "f", "torch.Tensor.names", "torch.Tensor.names", "stmt"),
  mvdot |-> Same("", ".vdot(1, 2, 3)", "recv", "n", "", "", ""),
  mzzz  |-> Same("", ".zzz(1)", "recv", "n", "", "", ""),
  azzz  |-> Same("", ".zed", "recv", "n", "", "", ""),
  \* plain references
  f32   |-> U("torch.float32", "", "paddle.float32", "", "leaf", "s", "torch.float32", "", "", TRUE),
  tens  |-> U("torch.Tensor", "", "paddle.Tensor", "", "leaf", "s", "torch.Tensor", "", "", TRUE),
  afoo  |-> Same("torch.foo_attr", "", "leaf", "f", "torch.foo_attr", "torch.foo_attr", "line"),
  tvfoo |-> Same("torchvision.zed.bar", "", "leaf", "f", "torchvision.zed.bar", "torchvision.zed.bar", "line"),
  ngrad |-> U("torch.no_grad()", "", "paddle.no_grad()", "", "leaf", "s", "torch.no_grad", "", "", TRUE),
  envw  |-> U("os.environ.get('WORLD_SIZE')", "", "paddle.distributed.get_world_size()", "", "leaf", "s", "os.environ.get", "", "", FALSE),
  enva  |-> Same("os.environ.get('A')", "", "leaf", "n", "", "", ""),
  \* not PyTorch at all
  fn    |-> Same("fn(1, ", ")", "arg", "n", "", "", ""),
  np    |-> Same("np.abs(", ")", "arg", "n", "", "", ""),
  sub   |-> Same("d[", "]", "arg", "n", "", "", ""),
  lst   |-> Same("[", ", 1]", "arg", "n", "", "", ""),
  tern  |-> Same("(1 if c else ", ")", "arg", "n", "", "", ""),
  plus  |-> Same("(b + ", ")", "arg", "n", "", "", ""),
  neg   |-> Same("(-", ")", "arg", "n", "", "", "")
]
KindSet == DOMAIN K
\* an API that minimal mode leaves alone is listed under the name it is left with
Left == [acos |-> "torch.arccos", pixs |-> "torch.pixel_shuffle", relum |-> "torch.nn.modules.activation.ReLU",
         timm |-> "timm.models.layers.trunc_normal_", timml |-> "timm.models.layers.trunc_normal_"]
ListedAs(k, e, mode) == IF mode = "min" /\ e.keep /\ k \in DOMAIN Left THEN Left[k] ELSE e.api
PkgName(k) == CASE k \in {"foo", "bfoo"} -> "torch.foo_bar" [] k = "fook" -> "torch.zed.foo_kw" [] k = "eig" -> "torch.eig" [] k = "zeta" -> "torch.special.zeta"
  [] k = "modf" -> "torch.nn.Module.foo_m" [] k = "tv" -> "torchvision.zed.foo" [] k = "trf" -> "transformers.Foo" [] k = "onnx" -> "torch.onnx.export"
  [] k \in {"star", "mis"} -> "torch.corrcoef" [] k \in {"afoo", "bafoo"} -> "torch.foo_attr" [] k = "tvfoo" -> "torchvision.zed.bar" [] OTHER -> ""

\* displays and strings joined to something by an operator
Joined == {"(v + 'a\\nb\\g<0>')", "(v + '''two\n   torch.lines(x)\n''')", "([0] * v)", "('%s' % v)", "(v == [1, 2])"}
(* plain operands; those in NotTensor are never taken for tensors *)
Plain == {"v", "v[0]", "(v + 1)", "(-v)", "(v < w)", "(v if c else w)", "(v or w)", "'s torch.abs(x) t'", "3", "v.zed2", "gn(v)", "[v, 1]", "(lambda: v)", "np.zeros(v)", "v[torch_x, 1]", "modeltorch.npy",
  "'''two\n   torch.lines(x)\n'''", "gn(*v, **w)", "v[1:2, ...]", "({1: v})", "({v, 1})", "(v, 1)", "[i for i in v]", "f'{v}'", "gn(v, torch=1)"} \cup Joined
NotTensor == {"(v if c else w)", "(v or w)", "'s torch.abs(x) t'", "3", "[v, 1]", "(lambda: v)", "np.zeros(v)", "v.zed2", "modeltorch.npy",
  "'''two\n   torch.lines(x)\n'''", "({1: v})", "({v, 1})", "(v, 1)", "[i for i in v]", "f'{v}'"} \cup Joined

AttrKinds == {"adev", "aspa", "aname", "azzz"}
LeafKinds == {k \in KindSet : K[k].pos = "leaf"}
RecvKinds == {k \in KindSet : K[k].pos = "recv"}
\* can k2 be the operand of k1 ?
Fits(k1, k2) ==
  /\ k1 \notin LeafKinds
  /\ k1 \in RecvKinds =>
       /\ k2 \notin AttrKinds
       /\ k2 \notin LeafKinds \ {"envw", "ngrad"}
       /\ k2 \in {"mT"} => k1 \in {"mabs", "mview", "mcuda", "mshar", "mtype", "mvdot", "mzzz"}
  /\ k1 = "mT" => k2 # "mT"
FitsPlain(k, p) ==
  /\ k \notin LeafKinds
  /\ k \in RecvKinds => p \notin {"3", "v.zed2", "modeltorch.npy"}
  /\ k = "star" => p \in {"v", "v[0]", "gn(v)"}

\* lists, strings, functions ..., or something combined with one by an operator
RECURSIVE Display(_, _)
Display(ch, p) == IF ch = <<>> THEN p \in NotTensor \ {"(v if c else w)", "(v or w)", "3", "np.zeros(v)", "v.zed2", "modeltorch.npy"}
                  ELSE Head(ch) = "lst" \/ (Head(ch) = "plus" /\ Display(Tail(ch), p))
\* made of values of other libraries and constants only
RECURSIVE Foreign(_, _)
Foreign(ch, p) == IF ch = <<>> THEN p \in Joined \cup {"np.zeros(v)", "'s torch.abs(x) t'", "'''two\n   torch.lines(x)\n'''", "f'{v}'", "3"}
                  ELSE Head(ch) = "np" \/ (Head(ch) = "plus" /\ Display(Tail(ch), p)) \/ ((K[Head(ch)].pos = "recv" \/ Head(ch) = "neg") /\ Foreign(Tail(ch), p))
\* the expressions whose methods belong to a tensor: what a call returns is
\* taken for one unless the call is another library's
RECURSIVE TensorLike(_, _)
TensorLike(ch, p) ==
  IF ch = <<>> THEN p \notin NotTensor
  ELSE LET k == Head(ch) IN
       CASE k \in {"np", "enva", "lst", "tern"} -> FALSE
         [] k = "plus" -> ~Display(Tail(ch), p)
         [] k = "mT" -> TensorLike(Tail(ch), p)
         [] K[k].pos = "recv" \/ k = "neg" -> ~Foreign(Tail(ch), p)
         [] OTHER -> TRUE

\* a method of something that is no tensor is nobody's API
Effective(ch, p, i) ==
  LET k == ch[i] IN
  IF K[k].pos = "recv" /\ ~ TensorLike(SubSeq(ch, i + 1, Len(ch)), p)
  THEN [K[k] EXCEPT !.cnt = "n", !.op = K[k].ip, !.oq = K[k].iq, !.vis = "", !.api = "", !.ukey = ""]
  ELSE K[k]

RECURSIVE Src(_, _)
Src(ch, p) == IF ch = <<>> THEN p ELSE K[Head(ch)].ip \o Src(Tail(ch), p) \o K[Head(ch)].iq
RECURSIVE ConvFrom(_, _, _, _)
ConvFrom(ch, p, i, mode) ==
  IF i > Len(ch) THEN p
  ELSE LET e == Effective(ch, p, i) IN
       IF mode = "min" /\ e.keep THEN e.ip \o ConvFrom(ch, p, i + 1, mode) \o e.iq
       ELSE e.op \o ConvFrom(ch, p, i + 1, mode) \o e.oq
Conv(ch, p, mode) == ConvFrom(ch, p, 1, mode)
=============================================================================
