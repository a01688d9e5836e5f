SEEDS = []


def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


S("E03-cast-before-clip", "E03",
  "a value-head weight that rounds to exactly one step above the largest 8-bit number",
  "a weight of 127.6 steps passes the check and is exported as -128",
  [("model/serialization/flatnet.py", '''np.clip(np.around(l4_weight * s_output), -128, 127).astype(np.int8),
''', '''np.clip(np.around(l4_weight * s_output).astype(np.int8), -128, 127),
''')],
  '''from common import *
import torch
from model.flatnet import FlatLadder7x7NNUEv1
from model.serialization.flatnet import FlatLadder7x7NNUEv1Serializer
m = FlatLadder7x7NNUEv1().eval()
s = FlatLadder7x7NNUEv1Serializer(rules=["freestyle"], boardsizes=[7])
with torch.no_grad():
    for p in m.parameters():
        p.clamp_(-0.01, 0.01)
    m.value_linears[3].fc.weight[0, 0] = 127.6 / s.s_output
with torch.no_grad():
    r = s._export_value(m)
assert r[6].max() == 127 and r[6].min() > -10, (r[6].min(), r[6].max())
''')

S("E03-feature-limit-half-step", "E03",
  "a Mix9 line feature of at least 15.99",
  "the feature map is clipped half a step too high: 512 does not fit the ten bits it is packed into",
  [("model/serialization/mixnet.py", '''        feature_map_clipped = np.clip(feature_map, a_min=-16, a_max=511 / 32)
        num_params_clipped = np.sum(feature_map != feature_map_clipped)
        feature_map_quant = np.around(feature_map_clipped * 32).astype(np.int16)  # [-512, 511]
        print(
            f"feature map: used {usage_flags.sum()} features of {len(usage_flags)}, "
            + f": clipped {num_params_clipped}/{feature_map.size}"
            + f", quant_range = {(feature_map_quant.min(), feature_map_quant.max())}"
        )
        return feature_map_quant, usage_flags

    def _export_feature_dwconv(self, model: Mix9Net):''', '''        feature_map_clipped = np.clip(feature_map, a_min=-16, a_max=16 - 1 / 64)
        num_params_clipped = np.sum(feature_map != feature_map_clipped)
        feature_map_quant = np.around(feature_map_clipped * 32).astype(np.int16)  # [-512, 511]
        print(
            f"feature map: used {usage_flags.sum()} features of {len(usage_flags)}, "
            + f": clipped {num_params_clipped}/{feature_map.size}"
            + f", quant_range = {(feature_map_quant.min(), feature_map_quant.max())}"
        )
        return feature_map_quant, usage_flags

    def _export_feature_dwconv(self, model: Mix9Net):''')],
  '''from common import *
import numpy as np
from model.mixnet import Mix9Net
from model.serialization.mixnet import Mix9NetSerializer
m = Mix9Net(16, 32, 16, 16, 16).eval()
s = Mix9NetSerializer(rules=["freestyle"], boardsizes=[15])
s.line_length = 5
s._export_map_table = lambda model, device, lines, idx: np.full(lines.shape + (32,), 15.999, np.float32)
f, u = s._export_feature_map(m, None, 1)
assert f.max() <= 511, f.max()
''')

S("E03-slope-bound-misses-one", "E03",
  "a Mix6 mapping activation with a negative slope close to -8",
  "the overflow check forgets the one that is subtracted from the slope: the exported slope wraps to a positive number",
  [("model/serialization/mixnet.py", '''        act_max = max((slope_max + 1) / 8 * 2**15, bias_max * scale)''', '''        act_max = max(slope_max / 8 * 2**15, bias_max * scale)''')],
  '''from common import *
import numpy as np, torch
from types import SimpleNamespace as N
from model.serialization.mixnet import Mix6NetSerializer
s = Mix6NetSerializer(rules=["freestyle"], boardsizes=[15])
m = N(mapping_activation=N(neg_slope=torch.tensor([-7.5, 0.5]), bias=torch.tensor([0.0, 0.0]), bound=0))
try:
    r = s._export_mapping_activation(m, 1.0, 100.0)
except AssertionError:
    sys.exit(0)
w = np.asarray(r[0]).astype("<i2")
assert w[0] < 0, w
''')

S("E03-codes-counted-in-17-bits", "E03",
  "a vector-quantized 7x7 model whose code book has more than 65536 entries",
  "the export accepts 131072 codes, whose indices are cut to 16 bits",
  [("model/serialization/mixnet.py", '''        assert model.codebook_size <= 65536, "assume uint16 for codebook index now"''', '''        assert model.codebook_size <= 2**17, "assume uint16 for codebook index now"''')],
  '''from common import *
import numpy as np, torch
from types import SimpleNamespace as N
from model.serialization.mixnet import Mix9svqNetSerializer
s = Mix9svqNetSerializer(rules=["freestyle"], boardsizes=[15])
s.line_length = 3
s._export_map_table = lambda model, device, lines, idx: np.zeros(lines.shape + (4,), np.float32)


class VQ:
    codebook = torch.zeros(1, 70000, 4)

    def __call__(self, f):
        return f, {"embed_indices": torch.full((f.shape[0], 1), 65539)}, None


m = N(vq_layers=[VQ()], num_codebooks=1, codebook_size=70000, model_size=(4, 4))
try:
    r = s._export_feature_codebook(m, torch.device("cpu"), 1)
except AssertionError:
    sys.exit(0)
idx = [a for a in r if getattr(a, "dtype", None) == np.uint16][0]
assert idx.max() > 100, idx
''')
