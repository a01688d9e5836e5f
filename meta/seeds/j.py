SEEDS = []


def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


FAKE = '''from common import *
import torch
from dataset.core import Maximum, SumCount, SufficientStats
from trainer.base import BaseTrainer


class Acc:
    """two processes; the other one contributes what `other` lists, in order"""
    num_processes, is_main_process, is_local_main_process, device = 2, True, True, torch.device("cpu")

    def __init__(self, other=()):
        self.other = list(other)

    def reduce(self, x, reduction="sum"):
        y = torch.as_tensor(self.other.pop(0), dtype=x.dtype).reshape(x.shape)
        return torch.maximum(x, y) if reduction == "max" else x + y

    def gather(self, x):
        return x


def me(other=()):
    t = object.__new__(BaseTrainer)
    t.accelerator = Acc(other)
    return t


T = lambda v: torch.tensor(float(v))
'''

S("T10-zero-maximum-keeps-count", "T10",
  "evaluation on several processes of which one has no batch at all and replays, with the cross-evaluation maxima",
  "the placeholder maximum of a process that only replays keeps its count, so a replayed batch can set the reported maximum",
  [("trainer/base.py", '''            return Maximum("evaluation", value.value, 0)
''', '''            return Maximum("evaluation", value.value, value.valid_count)
'''),
   ("trainer/base.py", '''                    else Maximum(
                        "evaluation", value.value, 0
                    )
''', '''                    else value
''')],
  FAKE + '''z = me()._finalize_masked_global_batch({"m": Maximum("evaluation", T(9), 4)}, {}, include_metrics=False)["m"]
z = BaseTrainer._zero_evaluation_stat(z)
assert z.valid_count == 0, z
avg, n = me([1, 2.0, 3])._gather_averaged_metrics({"value_abserr_max": z}, 1)
assert avg["value_abserr_max"] == 2.0, avg
''')

S("T10-empty-rank-maximum", "T10",
  "a process whose maximum holds no value but still carries the number of a replayed batch",
  "the reduction over the processes takes the maximum of a process that has no value",
  [("trainer/base.py", '''                candidate = (
                    v.value
                    if v.valid_count
                    else torch.full_like(v.value, -torch.inf)
                )
''', '''                candidate = (
                    v.value
                    if torch.isfinite(v.value)
                    else torch.full_like(v.value, -torch.inf)
                )
''')],
  FAKE + '''avg, n = me([1, 2.0, 3])._gather_averaged_metrics({"value_abserr_max": Maximum("evaluation", T(9), 0)}, 1)
assert avg["value_abserr_max"] == 2.0, avg
''')

S("T10-replay-keeps-denominator", "T10",
  "evaluation on several processes with unequal numbers of batches",
  "a replayed batch adds nothing to the sum of a global batch but still adds its rows to the denominator",
  [("trainer/base.py", '''                local_count = value.count if include_metrics else 0
''', '''                local_count = value.count
''')],
  FAKE + '''r = me([6.0, 4])._finalize_masked_global_batch({"a": SumCount("global_batch", T(10), 4)}, {}, include_metrics=False)["a"]
assert float(r.sum) == 1.5 and r.count == 1, r
''')

S("T10-padded-rows-in-accuracy", "T10",
  "a padded last test batch",
  "the top-k move accuracy is divided by all rows of the batch, the padded ones included",
  [("trainer/metric/supervised.py", '''            "global_batch", overlap.float(), int(k * len(policy))
''', '''            "global_batch", overlap.float(), int(k * batch_size)
''')],
  '''from common import *
import torch
from trainer.metric.supervised import compute_supervised_metric_statistics as C
torch.manual_seed(1)
d = dict(value_target=torch.softmax(torch.randn(5, 3), 1), policy_target=torch.softmax(torch.randn(5, 25), 1).view(5, 5, 5))
r = dict(value=torch.randn(5, 3), policy=torch.randn(5, 5, 5))
real = torch.tensor([True, True, True, False, False])
a, b = C({**d, "is_real": real}, r, do_cross_eval=True), C({k: v[:3] for k, v in d.items()}, {k: v[:3] for k, v in r.items()}, do_cross_eval=True)
assert a.keys() == b.keys()
for k in a:
    x, y = a[k], b[k]
    assert getattr(x, "count", 0) == getattr(y, "count", 0) and getattr(x, "counts", 0) == getattr(y, "counts", 0), k
    for q in ("sum", "value"):
        if hasattr(x, q):
            assert torch.allclose(getattr(x, q), getattr(y, q)), k
''')

S("T10-padded-rows-in-regularizer", "T10",
  "policy regularisation, a model without a board mask, and a padded last validation batch",
  "the policy regularizer of validation is computed over all rows, the padded ones included",
  [("trainer/loss/supervised.py", '''        reg_stat = _policy_regularizer_stat(policy, board_mask)
''', '''        reg_stat = _policy_regularizer_stat(results["policy"], board_mask)
''')],
  '''from common import *
import torch
from trainer.loss.supervised import compute_supervised_loss_statistics as C
torch.manual_seed(1)
d = dict(value_target=torch.softmax(torch.randn(5, 3), 1), policy_target=torch.softmax(torch.randn(5, 25), 1).view(5, 5, 5))
r = dict(value=torch.randn(5, 3), policy=torch.randn(5, 5, 5))
real = torch.tensor([True, True, True, False, False])
a, _ = C("CE+CE", {**d, "is_real": real}, r, policy_reg_lambda=0.1)
b, _ = C("CE+CE", {k: v[:3] for k, v in d.items()}, {k: v[:3] for k, v in r.items()}, policy_reg_lambda=0.1)
x, y = a["policy_reg"], b["policy_reg"]
assert x.counts == y.counts and all(torch.allclose(x.tensors[k], y.tensors[k]) for k in x.tensors), (x, y)
''')
