------------------------------- MODULE Helper -------------------------------
(***************************************************************************)
(* Helper code.  Some converted APIs call functions that do not exist in   *)
(* Paddle; the conversion then brings their definitions along: into the    *)
(* file itself when a single file is converted, into one helper module at  *)
(* the top of the output when a directory is, which the files that need it *)
(* import.  A process may run several conversions; each has its own files  *)
(* and helper code.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS UseKinds, HeadKinds, Places, MaxRuns, MaxFiles, MaxUses, Dirs

\* kind of use |-> how it is written, and the helper it needs ("" : none)
U(s, h) == [s |-> s, h |-> h]
K == [
  plain |-> U("fn(v)", ""), abs |-> U("torch.abs(v)", ""), foo |-> U("torch.foo_bar(v)", ""), mabs |-> U("v.abs()", ""), np |-> U("np.max(v)", ""),
  sum |-> U("v.sum(1)", ""), lin |-> U("torch.nn.Linear(v, 3)", ""), maxd |-> U("torch.maximum(v, w)", ""), softmax |-> U("torch.nn.functional.softmax(v, dim=1)", ""),
  rot |-> U("flash_attn.layers.rotary.apply_rotary_emb_func", "rot"),
  fpow |-> U("v.float_power(w)", "fpow"), fpow2 |-> U("torch.float_power(v, w)", "fpow"),
  max |-> U("v.max()", "max"), max1 |-> U("v.max(1)", "max"), min |-> U("v.min()", "min"), split |-> U("v.split(w)", "split"),
  symeig |-> U("v.symeig()", "symeig"), symeig2 |-> U("torch.symeig(v)", "symeig"),
  feach |-> U("torch._foreach_abs(v)", "feach"), feach2 |-> U("torch._foreach_exp(v)", "feach"),
  feachi |-> U("torch._foreach_exp_(v)", "feachi"), ferfc |-> U("torch._foreach_erfc(v)", "ferfc"), ferfci |-> U("torch._foreach_erfc_(v)", "ferfci"),
  cast |-> U("torch.can_cast(v, w)", "cast"), cpudev |-> U("torch.cpu.set_device(v)", "cpudev"),
  memfr |-> U("torch.cuda.set_per_process_memory_fraction(v)", "memfr"),
  rsct |-> U("torch.distributed.reduce_scatter_tensor(v, w)", "rsct"), remote |-> U("torch.distributed.rpc.remote(v, w)", "remote"),
  posdef |-> U("torch.distributions.transforms.PositiveDefiniteTransform()", "posdef"),
  lusolve |-> U("torch.linalg.lu_solve(v, w, 3)", "lusolve"), gru |-> U("torch.nn.GRUCell(v, w)", "gru"), lstm |-> U("torch.nn.LSTMCell(v, w)", "lstm"),
  lsm |-> U("torch.nn.LogSoftmax()", "lsm"), rnn |-> U("torch.nn.RNNCell(v, w)", "rnn"), smin |-> U("torch.nn.Softmin()", "smin"),
  redenum |-> U("torch.nn.functional._Reduction.get_enum(v)", "redenum"), fsmin |-> U("torch.nn.functional.softmin(v)", "fsmin"),
  ntuple |-> U("torch.nn.modules.utils._ntuple(v)", "ntuple"), nit |-> U("torch.set_num_interop_threads(v)", "nit"),
  nthr |-> U("torch.set_num_threads(v)", "nthr"), setmod |-> U("torch.utils.set_module(v, w)", "setmod"),
  voc |-> U("torchvision.datasets.VOCDetection()", "voc"), psroi |-> U("torchvision.ops.ps_roi_pool(v)", "psroi"),
  roia |-> U("torchvision.ops.roi_align(v)", "roia"), roip |-> U("torchvision.ops.roi_pool(v)", "roip"),
  ptm |-> U("transformers.PreTrainedModel", "ptm"), flag |-> U("torch.backends.cudnn.enabled", "flag"), flag2 |-> U("torch.backends.cudnn.allow_tf32", "flag")]
AllKinds == DOMAIN K
\* helpers that give Paddle classes members the converted code uses
Patch == [max |-> {"_max"}, min |-> {"_min"}, split |-> {"split"}, ptm |-> {"get_head_mask", "generate", "post_init"}, lsm |-> {"forward"}]
Helpers == {K[k].h : k \in AllKinds} \ {""}

\* a program: runs of the converter, each over files, each with uses
VARIABLES runs, phase, r, f, need, wants
vars == <<runs, phase, r, f, need, wants>>
\* need[x]: helpers run x has collected;  wants[x]: its files that use helper code
Init == runs = <<>> /\ phase = "write" /\ r = 1 /\ f = 1 /\ need = <<>> /\ wants = <<>>
LastRun == runs[Len(runs)]
Open(files) == IF files = <<>> THEN FALSE ELSE files[Len(files)].uses # <<>>
NewRun == /\ phase = "write" /\ Len(runs) < MaxRuns
          /\ Open(IF runs = <<>> THEN <<[uses |-> <<0>>]>> ELSE LastRun.files)
          /\ \E d \in Dirs : runs' = Append(runs, [dir |-> d, files |-> <<>>])
          /\ UNCHANGED <<phase, r, f, need, wants>>
NewFile == /\ phase = "write" /\ runs # <<>>
           /\ Len(LastRun.files) < (IF LastRun.dir THEN MaxFiles ELSE 1)
           /\ (IF LastRun.files = <<>> THEN TRUE ELSE Open(LastRun.files))
           /\ \E h \in HeadKinds : runs' = [runs EXCEPT ![Len(runs)].files = Append(@, [head |-> h, uses |-> <<>>])]
           /\ UNCHANGED <<phase, r, f, need, wants>>
NewUse == /\ phase = "write" /\ runs # <<>> /\ LastRun.files # <<>>
          /\ LET n == Len(LastRun.files) IN
             /\ Len(LastRun.files[n].uses) < MaxUses
             /\ \E k \in UseKinds : \E p \in Places :
                  runs' = [runs EXCEPT ![Len(runs)].files[n].uses = Append(@, [k |-> k, p |-> p])]
          /\ UNCHANGED <<phase, r, f, need, wants>>
Start == /\ phase = "write" /\ runs # <<>> /\ Open(LastRun.files)
         /\ phase' = "convert" /\ need' = <<{}>> /\ wants' = <<{}>> /\ UNCHANGED <<runs, r, f>>

\* the conversion of one file collects what its uses need
NeedOf(file) == {K[file.uses[u].k].h : u \in 1..Len(file.uses)} \ {""}
ConvertFile == /\ phase = "convert" /\ r <= Len(runs) /\ f <= Len(runs[r].files)
               /\ need' = [need EXCEPT ![r] = @ \cup NeedOf(runs[r].files[f])]
               /\ wants' = [wants EXCEPT ![r] = IF NeedOf(runs[r].files[f]) = {} THEN @ ELSE @ \cup {f}]
               /\ f' = f + 1 /\ UNCHANGED <<runs, phase, r>>
\* the end of a run writes the helper code and forgets it
EndRun == /\ phase = "convert" /\ r <= Len(runs) /\ f > Len(runs[r].files)
          /\ r' = r + 1 /\ f' = 1
          /\ IF r < Len(runs) THEN need' = Append(need, {}) /\ wants' = Append(wants, {}) ELSE UNCHANGED <<need, wants>>
          /\ UNCHANGED <<runs, phase>>
Finish == phase = "convert" /\ r > Len(runs) /\ phase' = "done" /\ UNCHANGED <<runs, r, f, need, wants>>
Convert == ConvertFile \/ EndRun \/ Finish
Next == NewRun \/ NewFile \/ NewUse \/ Start \/ Convert
Spec == Init /\ [][Next]_vars

\* every use finds its helper, nothing is brought along without need
Served == phase = "done" => \A x \in 1..Len(runs) : \A y \in 1..Len(runs[x].files) : \A u \in 1..Len(runs[x].files[y].uses) :
             LET h == K[runs[x].files[y].uses[u].k].h IN h = "" \/ (h \in need[x] /\ y \in wants[x])
NoExcess == phase = "done" => \A x \in 1..Len(runs) :
             /\ \A h \in need[x] : \E y \in 1..Len(runs[x].files) : h \in NeedOf(runs[x].files[y])
             /\ (need[x] = {}) <=> (wants[x] = {})
EmitDone == phase = "done" => PrintT("@CASE " \o ToJson([runs |-> [x \in 1..Len(runs) |-> [dir |-> runs[x].dir, files |->
    [y \in 1..Len(runs[x].files) |-> [head |-> runs[x].files[y].head, uses |->
       [u \in 1..Len(runs[x].files[y].uses) |-> [k |-> runs[x].files[y].uses[u].k, p |-> runs[x].files[y].uses[u].p, s |-> K[runs[x].files[y].uses[u].k].s]]]]]]]))
=============================================================================
