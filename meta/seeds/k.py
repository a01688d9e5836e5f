SEEDS = []


def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


DEMO = '''from common import *
import torch
from trainer.loss.supervised import compute_supervised_losses as A, compute_supervised_loss_statistics as B
torch.manual_seed(3)
N = 6
d = dict(value_target=torch.softmax(torch.randn(N, 3), 1), policy_target=torch.softmax(torch.randn(N, 25), 1).view(N, 5, 5), forbidden_point=(torch.rand(N, 5, 5) < .2).float())
r = dict(value=torch.randn(N, 3), policy=torch.randn(N, 5, 5) + 1)
kd = dict(value=torch.randn(N, 3), policy=torch.randn(N, 5, 5) + 1)
bm = torch.ones(N, 5, 5)
bm[:, 3:] = 0


def same(lt, res, kd=None, **kw):
    t, ls, _ = A(lt, d, res, kd_results=kd, **kw)
    st, _ = B(lt, d, res, kd, **kw)
    assert set(ls) == set(st), (set(ls) ^ set(st), kw)
    for k in ls:
        assert torch.allclose(ls[k], st[k].finalize(), rtol=1e-4, atol=1e-6), (k, ls[k], st[k].finalize(), kw)
    assert torch.allclose(t.detach(), ls["total_loss"], rtol=1e-4)
'''

S("T14-aux-policy-softened-twice", "T14",
  "knowledge distillation with an auxiliary policy head",
  "training divides the auxiliary policy of a distilled model by the temperature twice, validation once",
  [("trainer/loss/supervised.py", '''                p, pt = prepare_policy(aux_input, policy_target, mask=board_mask)
                if kd_T is not None:
                    p = p / kd_T
''', '''                aux_p = aux_input if kd_T is None else aux_input / kd_T
                p, pt = prepare_policy(aux_p, policy_target, mask=board_mask)
                if kd_T is not None:
                    p = p / kd_T
''')],
  DEMO + '''same("CE+CE", {**r, "aux_losses": {"h": ("policy_loss", torch.randn(N, 5, 5))}}, kd, kd_T=2.0, kd_alpha=0.5)
''')

S("T14-mean-over-cells", "T14",
  "boards with a mask and policy regularisation",
  "the validation statistic of the policy regularizer divides by all cells of the batch instead of the cells on the boards",
  [("trainer/loss/supervised.py", '''        valid_cells = int(valid.sum().item())
''', '''        valid_cells = int(valid.numel())
''')],
  DEMO + '''same("CE+CE", {**r, "board_mask": bm}, policy_reg_lambda=0.5)
''')

S("T14-forbidden-weight-mse", "T14",
  "ignored forbidden points together with the squared policy loss",
  "the squared policy loss of validation is averaged over the points that are not forbidden, that of training over all points",
  [("trainer/loss/supervised.py", '''        if weight is not None:
            values = values * weight
        return _sum_count(values)
''', '''        if weight is not None:
            values = values * weight
            return SumCount("global_batch", values.sum(), int(weight.sum().item()))
        return _sum_count(values)
''')],
  DEMO + '''same("MSE+MSE", r, ignore_forbidden_point_policy=True)
''')

S("T14-head-weight-default", "T14",
  "an auxiliary policy head without its own weight, and a value-policy ratio other than 1",
  "validation weighs an auxiliary policy head like a value head in the total loss",
  [("trainer/loss/supervised.py", '''                target_dependent = True
                if weight is None:
                    weight = policy_lambda
            elif loss_kind in {
''', '''                target_dependent = True
                if weight is None:
                    weight = value_lambda
            elif loss_kind in {
''')],
  DEMO + '''same("CE+CE", {**r, "aux_losses": {"h": ("policy_loss", torch.randn(N, 5, 5))}}, value_policy_ratio=3)
''')

S("T14-distilled-regularizer-twice", "T14",
  "knowledge distillation together with policy regularisation",
  "training mixes the policy regularizer into the distillation term, scaled by the temperature squared, and adds it again unscaled",
  [("trainer/loss/supervised.py", '''        kd_loss = _sum_terms(terms, target_dependent=True)
        real_loss =''', '''        kd_loss = _sum_terms(terms)
        real_loss =''')],
  DEMO + '''same("CE+CE", r, kd, kd_T=2.0, kd_alpha=0.5, policy_reg_lambda=0.5)
''')
