SEEDS = []


def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


S("D08-filters-or", "D08",
  "a side-to-move filter and a filter condition configured together",
  "rows accepted by either filter are kept instead of rows accepted by both",
  [("dataset/decoder.py", "mask = condition_mask if mask is None else mask & condition_mask", "mask = condition_mask if mask is None else mask | condition_mask")],
  '''from common import *
import numpy as np
from dataset.decoder import ProcessedNpzDecoder
p = os.path.join(SCRATCH, "a.npz")
gf = np.array([[1, 0], [1, 5], [-1, 5], [-1, 0]], np.int8)
np.savez(p, bf=np.zeros((4, 2, 15, 15), np.int8), gf=gf, vt=np.zeros((4, 3), np.float32), pt=np.zeros((4, 225), np.int8))
from dataset.filter import evaluate_filter_condition
d = object.__new__(ProcessedNpzDecoder)
import inspect
kw = {}
for n, q in list(inspect.signature(ProcessedNpzDecoder.__init__).parameters.items())[1:]:
    if q.default is inspect.Parameter.empty and q.kind is not q.VAR_KEYWORD:
        kw[n] = {(15, 15)} if n == "boardsizes" else None
kw.update(filter_stm=1, filter_condition="gf[:, 1] > 3")
if "boardsizes" in inspect.signature(ProcessedNpzDecoder.__init__).parameters:
    kw["boardsizes"] = {(15, 15)}
d = ProcessedNpzDecoder(**kw)
a = d._load_uncached(p)
assert a["gf"].tolist() == [[1, 5]], a["gf"].tolist()
''')

S("D08-chain-compares-first", "D08",
  "a chained comparison in a filter",
  "every link of a comparison chain is compared with the first operand",
  [("dataset/filter.py", '''                left = right
            return result
''', '''            return result
''')],
  '''from common import *
import numpy as np
from dataset.filter import evaluate_filter_condition as e
assert e("0 < v < w", {"v": np.array([1., 5., 3.]), "w": np.array([2., 4., 4.])}).tolist() == [True, False, True]
''')

S("D08-limit-needs-both", "D08",
  "a list selection that repeats a column many times",
  "an intermediate over the element limit passes unless it is also over the byte limit",
  [("dataset/filter.py", "value.size > self.max_elements or value.nbytes > MAX_INTERMEDIATE_BYTES", "value.size > self.max_elements and value.nbytes > MAX_INTERMEDIATE_BYTES")],
  '''from common import *
import numpy as np
from dataset.filter import evaluate_filter_condition as e
n = 1000
try:
    e("gf[:, [%s]][:, 0] > 0" % ",".join("0" for _ in range(60)), {"gf": np.ones((n, 2), np.float32)})
except ValueError as x:
    assert "limit" in str(x), x
else:
    raise SystemExit("60000 elements accepted for 1000 rows")
''')
