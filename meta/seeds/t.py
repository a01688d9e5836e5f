SEEDS = []


def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


S("T01-setup-interrupt-uncaught", "T01",
  "an interrupt or system exit during one process's dataset setup",
  "dataset setup reports only ordinary exceptions, so an interrupted process leaves while the others wait in the exchange",
  [("trainer/base.py", '''            value = callback()
        except BaseException as exc:
            local_error = f"{type(exc).__name__}: {exc}"
''', '''            value = callback()
        except Exception as exc:
            local_error = f"{type(exc).__name__}: {exc}"
''')],
  '''from common import *
import types
from trainer.base import BaseTrainer
t = types.SimpleNamespace(accelerator=types.SimpleNamespace(num_processes=1, process_index=0))
def boom():
    raise KeyboardInterrupt("stop")
try:
    BaseTrainer._collective_dataset_call(t, "setup", boom)
except RuntimeError as e:
    assert "KeyboardInterrupt" in str(e)
except BaseException as e:
    raise SystemExit(f"left without reporting: {e!r}")
else:
    raise SystemExit("no error")
''')

S("T01-signature-last-rank-only", "T01",
  "three or more processes, one in the middle reading different data",
  "the data signature is compared between the first and the last process only",
  [("trainer/base.py", '''        if any(value != digests[0] for value in digests[1:]):
            raise RuntimeError(
                f"{phase} stream signature differs''', '''        if digests[-1] != digests[0]:
            raise RuntimeError(
                f"{phase} stream signature differs''')],
  '''from common import *
import types
import trainer.base as tb
tb.gather_object = lambda x: [x[0], "somethingelse", x[0]]
t = types.SimpleNamespace(accelerator=types.SimpleNamespace(num_processes=3, process_index=0),
                          _canonical_resume_value=tb.BaseTrainer._canonical_resume_value)
s = types.SimpleNamespace(signature_state=lambda: {"a": 1})
try:
    tb.BaseTrainer._validate_stream_signature_collectively(t, s, "train")
except RuntimeError:
    pass
else:
    raise SystemExit("process 1 reads different data and nobody noticed")
''')

S("T02-ckpt-tmp-is-listed", "T02",
  "a crash while a checkpoint is being written over an earlier unfinished one, then a resume",
  "the temporary model file is named like a finished checkpoint, so a truncated one is found as the newest",
  [("utils/file_utils.py", '''    tmp_path = filepath + ".tmp"
    torch.save(state_dict, tmp_path)''', '''    root, ext = os.path.splitext(filepath)
    tmp_path = root + "_tmp" + ext
    torch.save(state_dict, tmp_path)''')],
  '''from common import *
import torch
import utils.file_utils as fu
d = os.path.join(SCRATCH, "ck")
fu.save_torch_ckpt(os.path.join(d, "ckpt_m_0000001.pt"), {"w": torch.ones(1)})
real = os.replace
def crash(*a):
    raise OSError("crash")
os.replace = crash
try:
    fu.save_torch_ckpt(os.path.join(d, "ckpt_m_0000002.pt"), {"w": torch.ones(1)})
except OSError:
    pass
os.replace = real
f = fu.find_latest_ckpt(d, "ckpt_")
assert f.endswith("ckpt_m_0000001.pt"), f
''')

S("T03-stage-shared-storage", "T03",
  "a checkpoint with tensors that are views of one buffer",
  "the snapshot identifies tensors by their memory address, so a view is replaced by the first tensor with the same start",
  [("utils/async_checkpoint.py", '''        key = id(obj)
''', '''        key = obj.data_ptr()
''')],
  '''from common import *
import torch
from utils.async_checkpoint import _stage_tree
flat = torch.arange(8.0)
out = _stage_tree({"flat": flat, "first": flat[:3]}, {}, None)
assert out["first"].shape == (3,), out["first"].shape
''')

S("T03-scalar-alias", "T03",
  "a small host tensor in a snapshotted state, changed in place while the writer still runs",
  "one-element host tensors are not copied into the snapshot, so later steps change what is written",
  [("utils/async_checkpoint.py", '''                staged = obj.clone()
''', '''                staged = obj.clone() if obj.numel() > 1 else obj.detach()
''')],
  '''from common import *
import torch
from utils.async_checkpoint import _stage_tree
step = torch.tensor(5.0)
out = _stage_tree({"state": {0: {"step": step}}}, {}, None)
step += 1
assert out["state"][0]["step"].item() == 5.0, "the snapshot moved with the live counter"
''')

S("T04-lr-layout-unchecked", "T04",
  "resuming after changing the base learning rate in the configuration",
  "only the optimizer kinds and options of a saved state are compared, not its learning rates",
  [("trainer/base.py", '''        if saved_optimizer_config != self._optimizer_config:
''', '''        if isinstance(saved_optimizer_config, dict) and set(saved_optimizer_config) != set(
            self._optimizer_config
        ):
''')],
  '''from common import *
t = trainer("a", iterations=2)
t.run()
try:
    t2 = trainer("a", iterations=4, learning_rate=0.5, train_datas=t.train_datas)
    t2.run()
except RuntimeError as e:
    assert "earning" in str(e) or "optimizer" in str(e), e
else:
    raise SystemExit("resumed with another learning rate")
''')

S("T04-file-head-hash", "T04",
  "a training file larger than a megabyte changed behind its first megabyte between two runs, with its time restored",
  "only the first megabyte of a training file goes into its identity",
  [("trainer/base.py", '''                            chunk = stream.read(1024 * 1024)
                            if not chunk:
                                break
                            digest.update(chunk)
                    identities''', '''                            chunk = stream.read(1024 * 1024)
                            digest.update(chunk)
                            if len(chunk) <= 1024 * 1024:
                                break
                    identities''')],
  '''from common import *
import types
from trainer.base import BaseTrainer
p = os.path.join(SCRATCH, "big.bin")
def write(b):
    with open(p, "wb") as f:
        f.write(bytes(2 << 20) + b)
    os.utime(p, ns=(10**18, 10**18))
t = types.SimpleNamespace(train_datas=[p])
write(b"a")
a = BaseTrainer._training_file_identity(t)
write(b"b")
assert a != BaseTrainer._training_file_identity(t), "a changed file has the same identity"
''')

S("T04-latest-by-name", "T04",
  "a run that passes iteration 9999999",
  "the newest training state is chosen by file name, which is not numerical once the padding overflows",
  [("utils/file_utils.py", '''        return (iteration is not None, iteration if iteration is not None else 0, filepath)
''', '''        return (iteration is not None, filepath)
''')],
  '''from common import *
from utils.file_utils import find_latest_ckpt
d = os.path.join(SCRATCH, "l")
os.makedirs(d)
for n in ("state_9999999.pt", "state_10000000.pt"):
    open(os.path.join(d, n), "w").close()
assert find_latest_ckpt(d, "state_").endswith("state_10000000.pt")
''')

S("T05-kept-state-loses-model", "T05",
  "a state interval that is no multiple of the save interval, and a bounded number of kept states",
  "model files of a kept training state are pruned when the state is off the save interval",
  [("trainer/base.py", '''        kept_state_iters = {it for it, _ in retained_states}
''', '''        kept_state_iters = {it for it, _ in retained_states if it % self.save_interval == 0}
''')],
  '''from common import *
t = trainer("p", iterations=7, save_interval=4, state_save_interval=3, num_keep_states=2)
t.run()
names = os.listdir(t.ckpt_dir)
for it in sorted(int(n.split("_")[1].split(".")[0]) for n in names if n.startswith("state_")):
    assert any(n.startswith("ckpt_") and f"{it:07d}" in n for n in names), (it, sorted(names))
''')

S("T05-state-due-only-on-save", "T05",
  "a state interval that is no multiple of the save interval",
  "iterations due only for a training state are not saved at all",
  [("trainer/base.py", '''            or (
                self.state_save_interval is not None
                and iteration % self.state_save_interval == 0
            )
        )
''', '''            or (
                self.state_save_interval is not None
                and self.state_save_interval % self.save_interval == 0
                and iteration % self.state_save_interval == 0
            )
        )
''')],
  '''from common import *
t = trainer("p", iterations=8, save_interval=4, state_save_interval=3, num_keep_states=-1)
t.run()
its = sorted(int(n.split("_")[1].split(".")[0]) for n in os.listdir(t.ckpt_dir) if n.startswith("state_"))
assert 3 in its and 6 in its, its
''')

S("T06-post-hook-after-commit", "T06",
  "a post-step hook that fails",
  "the sampler position is committed before the post-step hook ran, so a failed step has consumed its data",
  [("trainer/base.py", '''        after_errors = []
        try:
            self._optimizer_state_mutated = True
            self.on_after_step(data)
''', '''        if getattr(self, "_pending_sampler_tokens", []) and prepared_sampler_commit is not None:
            self._resume_sampler.commit_prepared(prepared_sampler_commit)
            self.state.epoch = self._resume_sampler.epoch
            self._pending_sampler_tokens = []
        after_errors = []
        try:
            self._optimizer_state_mutated = True
            self.on_after_step(data)
''')],
  '''from common import *
import torch, types
import trainer.base as tb
from trainer.supervised import SupervisedTrainer
from utils.training_utils import ResumableSampler
class T(SupervisedTrainer):
    n = 0
    def on_after_step(self, data):
        T.n += 1
        if T.n == 3:
            raise ValueError("hook")
        return super().on_after_step(data)
# a map-style data source: the sampler path of the trainer
s = ResumableSampler(range(64), shuffle=False, seed=1)
it = iter(s)
t = trainer("h", iterations=6, cls=T)
real = T._run_train_step
def run(self, data):
    [next(it) for _ in range(8)]
    self._resume_sampler = s
    self._resume_sampler_used = True
    self._pending_sampler_tokens = [s.stage_batch(8)]
    self._pending_stream_tokens = []
    r = real(self, data)
    self._resume_sampler = None
    return r
T._run_train_step = run
try:
    t.run()
except Exception as e:
    assert T.n == 3, repr(e)
assert s.offset == 16, f"committed position {s.offset}, two steps succeeded"
''')

S("T06-rows-not-rolled-back", "T06",
  "a failing step with gradient accumulation",
  "a failed accumulated step takes only one micro-batch off the sample counter again",
  [("trainer/base.py", '''                    st.iteration -= 1
                    st.rows -= self.batch_size * self.gradient_accumulation_steps
''', '''                    st.iteration -= 1
                    st.rows -= self.batch_size
''')],
  '''from common import *
from trainer.supervised import SupervisedTrainer
class T(SupervisedTrainer):
    n = 0
    def train_step(self, *a, **k):
        T.n += 1
        if T.n == 6:
            raise ValueError("step")
        return super().train_step(*a, **k)
t = trainer("g", iterations=6, cls=T, gradient_accumulation_steps=2)
try:
    t.run()
except Exception:
    pass
assert T.n == 6 and t.state.iteration == 2 and t.state.rows == 32, (T.n, t.state.iteration, t.state.rows)
''')

S("T07-drain-drops-oldest", "T07",
  "a non-finite step just before a validation pass",
  "draining before validation leaves the newest queued check unread",
  [("trainer/base.py", '''                self._drain_pending_step_validity(
                    include_current=save_due or val_due
                )
''', '''                self._drain_pending_step_validity(
                    include_current=save_due
                )
''')],
  '''from common import *
import torch
from trainer.supervised import SupervisedTrainer
seen = []
class T(SupervisedTrainer):
    n = 0
    def train_step(self, *a, **k):
        T.n += 1
        loss, ld, ad = super().train_step(*a, **k)
        if T.n == 3:
            ad = dict(ad, extra=torch.tensor(float("nan")))
        else:
            ad = dict(ad, extra=torch.tensor(1.0))
        return loss, ld, ad
    def _validate(self):
        seen.append(self.state.iteration)
fs = files((64, 32))
t = trainer("v", iterations=6, cls=T, train_datas=fs[:1], val=fs[1:], val_interval=3, save_interval=100)
try:
    t.run()
except RuntimeError:
    pass
assert 3 not in seen, "validated a step whose finite check failed"
''')

S("T07-metric-not-checked", "T07",
  "a step whose auxiliary metric (not its loss) is non-finite, on the deferred path",
  "the combined finite check covers only the losses",
  [("trainer/base.py", '''                    metric_values = list(loss_dict.values()) + list(aux_dict.values())
''', '''                    metric_values = list(loss_dict.values())
''')],
  '''from common import *
import torch
from trainer.supervised import SupervisedTrainer
class T(SupervisedTrainer):
    n = 0
    def train_step(self, *a, **k):
        T.n += 1
        loss, ld, ad = super().train_step(*a, **k)
        return loss, ld, dict(ad, extra=torch.tensor(float("nan") if T.n == 3 else 1.0))
t = trainer("v", iterations=6, cls=T)
try:
    t.run()
except RuntimeError as e:
    assert "finite" in str(e), e
else:
    raise SystemExit("a non-finite metric went unnoticed")
''')

S("T08-rows-from-iteration", "T08",
  "saving and resuming a run whose batch size differs from its row counter's history (an accumulated run)",
  "the row counter is not restored but recomputed without gradient accumulation",
  [("trainer/base.py", '''        self.state.rows = int(metadata.get("rows", 0))
        self._pending_resume_state = rank_state
''', '''        self.state.rows = self.state.iteration * self.batch_size
        self._pending_resume_state = rank_state
''')],
  '''from common import *
t = trainer("r", iterations=2, gradient_accumulation_steps=2)
t.run()
assert t.state.rows == 32
t2 = trainer("r", iterations=2, gradient_accumulation_steps=2, train_datas=t.train_datas)
t2.run()
assert t2.state.rows == 32, t2.state.rows
''')

S("T08-gauss-not-restored", "T08",
  "a checkpoint taken after an odd number of NumPy normal draws",
  "NumPy's cached second normal value is saved but not restored",
  [("trainer/base.py", '''                np_state["has_gauss"],
                np_state["cached_gaussian"],
            )
        )
''', '''                0,
                np_state["cached_gaussian"],
            )
        )
''')],
  '''from common import *
import types
from trainer.base import BaseTrainer
t = types.SimpleNamespace(use_cpu=True, accelerator=types.SimpleNamespace(device=types.SimpleNamespace(type="cpu")))
np.random.seed(1)
np.random.randn()
s = BaseTrainer._capture_rng_state(t)
a = np.random.randn()
BaseTrainer._restore_rng_state(t, s)
assert np.random.randn() == a
''')

S("T13-rollback-keeps-staged", "T13",
  "a failed step whose batches crossed an epoch boundary, then training continues in the same object",
  "discarding a failed step's reads does not take back the staged epoch",
  [("utils/training_utils.py", '''        self._yielded_offset = self.offset
        self._staged_epoch = self.epoch
        self._staged_offset = self.offset

    def state_dict''', '''        self._yielded_offset = self.offset
        self._staged_offset = self.offset

    def state_dict''')],
  '''from common import *
from utils.training_utils import ResumableSampler
s = ResumableSampler(range(8), shuffle=False, seed=1)
it = iter(s)
for k in range(2):
    [next(it) for _ in range(4)]
    s.commit_prepared(s.prepare_commit([s.stage_batch(4)]))
s.advance_yield_epoch()
it = iter(s)
[next(it) for _ in range(4)]
s.stage_batch(4)
s.rollback_uncommitted()
s.advance_yield_epoch()
it = iter(s)
[next(it) for _ in range(4)]
t = s.stage_batch(4)
s.commit_prepared(s.prepare_commit([t]))
assert (s.epoch, s.offset) == (1, 4)
''')

S("T13-permutation-by-rank", "T13",
  "several processes with shuffling",
  "each process shuffles with its own seed, so the processes' parts overlap",
  [("utils/training_utils.py", '''            generator.manual_seed(self.seed + self._yield_epoch)
            indices = torch.randperm(length''', '''            generator.manual_seed(self.seed + self.rank + self._yield_epoch)
            indices = torch.randperm(length''')],
  '''from common import *
from utils.training_utils import ResumableSampler
parts = [list(ResumableSampler(range(64), shuffle=True, seed=3, rank=r, world_size=2)) for r in range(2)]
assert not set(parts[0]) & set(parts[1])
''')

S("O01-first-match-lost", "O01",
  "a parameter that more than one sub-optimizer's filter accepts, in a group added later",
  "a parameter added later goes to every sub-optimizer that accepts it",
  [("utils/chained_optimizer.py", '''                    indices.add((index, len(self.optimizers[index].param_groups)))
                    found_optimizer = True
                    break
''', '''                    indices.add((index, len(self.optimizers[index].param_groups)))
                    found_optimizer = True
''')],
  '''from common import *
import torch
from utils.chained_optimizer import ChainedOptimizer, OptimizerSpec
a, b = torch.nn.Parameter(torch.ones(1)), torch.nn.Parameter(torch.ones(1))


sp = [OptimizerSpec(torch.optim.SGD, {}, lambda p: p.ndim == 1), OptimizerSpec(torch.optim.SGD, {}, lambda p: True)]
m = torch.nn.Parameter(torch.ones(1, 1))
o = ChainedOptimizer([a, m], sp, lr=1.0)
o.add_param_group({"params": [b], "lr": 1.0, "weight_decay": 0.0})
n = sum(any(p is b for p in g["params"]) for x in o.optimizers for g in x.param_groups)
assert n == 1, f"{n} sub-optimizers step the parameter"
''')
