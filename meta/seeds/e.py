SEEDS = []


def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


S("E01-renju-masked-by-standard", "E01",
  "an export for both standard and renju",
  "the renju bit is not set when standard is requested too",
  [("model/serialization/__init__.py", '''        rule_mask |= 2
    if "renju" in rules:
''', '''        rule_mask |= 2
    elif "renju" in rules:
''')],
  '''from common import *
from model.serialization import rules_to_mask
assert rules_to_mask(["standard", "renju"]) == 6
''')

S("E01-size-32-unpacked", "E01",
  "an ONNX export for board size 32",
  "unpacking the model version leaves board size 32 out",
  [("export.py", '''    for i in range(32):
        if boardsize_mask''', '''    for i in range(31):
        if boardsize_mask''')],
  '''from common import *
sys.argv = ["export.py"]
import export
v = export.make_onnx_model_version(1, ["freestyle"], [15, 32])
assert export.parse_onnx_model_version(v) == (1, ["freestyle"], [15, 32])
''')

S("E02-description-length-chars", "E02",
  "a description with a non-ASCII character",
  "the description length in the header counts characters instead of bytes",
  [("export.py", '''            f.write(len(encoded_description).to_bytes(''', '''            f.write(len(description).to_bytes(''')],
  '''from common import *
sys.argv = ["export.py"]
import torch, export
class Stub:
    is_binary, needs_header = True, True
    def arch_hash(self, m): return 1
    def rule_mask(self, m): return 1
    def boardsize_mask(self, m): return 1
    def description(self, m): return "caf\\u00e9; "
    def serialize(self, out, m, device): out.write(b"W")
export.build_serializer = lambda *a, **k: Stub()
p = os.path.join(SCRATCH, "o.bin")
export.export_serialization(output=p, output_type="raw", model=torch.nn.Linear(1, 1), model_type="x",
                            export_args={"rule": "freestyle"}, use_cpu=True)
b = open(p, "rb").read()
n = int.from_bytes(b[16:20], "little")
assert len(b) == 20 + n + 1, (len(b), n)
''')

S("E02-eval-mode-lost", "E02",
  "exporting a model with dropout or batch statistics",
  "the exported model is left in training mode",
  [("export.py", '''    model.load_state_dict(model_state_dict)
    model.eval()
''', '''    model.eval()
    model.load_state_dict(model_state_dict)
    model.train(not export_type.startswith(("bin", "txt", "onnx")))
''')],
  '''from common import *
sys.argv = ["export.py"]
import torch, export
seen = []
class M(torch.nn.Linear):
    name = "m"

    def load_state_dict(self, *a, **k):
        pass


export.build_model = lambda *a, **k: M(1, 1)
export.load_torch_ckpt = lambda p: ({}, {}, {})
export.export_torch_jit = lambda output, model, **k: seen.append(model.training)
c = os.path.join(SCRATCH, "c.pt")
open(c, "wb").close()
export.export(
    checkpoint=c,
    output=os.path.join(SCRATCH, "o.pt"),
    rundir=None,
    export_type="torch-jit",
    model_type="x",
    model_args={},
    export_model_args=None,
    export_args={},
    use_cpu=True,
)
assert seen == [False], seen
''')
