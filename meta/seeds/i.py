SEEDS = []


def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


S("D07-diagonal-moves-crossed", "D07",
  "a move list, a square board and the rotation by 90 or 270 degrees",
  "the two quarter turns move the stones of the board one way and the listed moves the other way",
  [("utils/data_utils.py", '''            lambda x, y: (y, width - 1 - x),
            lambda x, y: (width - 1 - x, height - 1 - y),
            lambda x, y: (height - 1 - y, x),
''', '''            lambda x, y: (height - 1 - y, x),
            lambda x, y: (width - 1 - x, height - 1 - y),
            lambda x, y: (y, width - 1 - x),
''')],
  '''from common import *
from utils.data_utils import Move, Symmetry
for s in Symmetry:
    for x, y in ((0, 0), (3, 1), (6, 2)):
        a = np.zeros((7, 7), dtype=np.int8)
        a[y, x] = 1
        m = s.apply_to_move(Move(x, y), (7, 7))
        assert s.apply_to_array(a)[m.y, m.x] == 1, s
''')

S("D07-batch-stops-at-gap", "D07",
  "a batch in which one of the symmetries is drawn for no row",
  "the batched augmentation stops at the first symmetry that no row drew, so the rows of later symmetries are never written",
  [("dataset/decoder.py", '''            if not selected.size:
                continue
            board_input[selected]''', '''            if not selected.size:
                break
            board_input[selected]''')],
  '''from common import *
import dataset.decoder as D
from utils.data_utils import Symmetry
dec = object.__new__(D.ProcessedNpzDecoder)
dec.fixed_side_input, dec.apply_symmetry, dec._active_epoch = False, True, 0
class Ctx: seed = 1
dec.runtime_context = Ctx()
D._uniform_below_for_processed_sample_keys_v2 = lambda *a, **k: [0, 5, 5, 7]
class Ref: sample_key = (b"x",)
rng = np.random.default_rng(1)
data = {"board_size": np.full((4, 2), 5, np.int8), "board_input": rng.integers(0, 2, (4, 2, 5, 5)).astype(np.int8), "stm_input": np.full((4, 1), -1, np.float32),
        "value_target": np.ones((4, 3), np.float32) / 3, "policy_target": rng.random((4, 5, 5)).astype(np.float32)}
want = [list(Symmetry)[i].apply_to_array(data["board_input"][r]) for r, i in enumerate([0, 5, 5, 7])]
pol = [list(Symmetry)[i].apply_to_array(data["policy_target"][r]) for r, i in enumerate([0, 5, 5, 7])]
out = dec._post_process_vectorized({k: v.copy() for k, v in data.items()}, [Ref()] * 4)
for r in range(4):
    assert np.array_equal(out["board_input"][r], want[r]), r
    assert np.array_equal(out["policy_target"][r], pol[r]), r
''')

S("D07-unknown-side-swapped", "D07",
  "fixed sides, a batch decoded from files that do not say who is to move (the side to move is 0)",
  "the batched reader treats an unknown side to move as white and swaps the sides and the result of those rows",
  [("dataset/decoder.py", "white_to_move = np.reshape(stm_input > 0, (batch_size, -1))", "white_to_move = np.reshape(stm_input >= 0, (batch_size, -1))")],
  '''from common import *
import dataset.decoder as D
from utils.data_utils import post_process_data
dec = object.__new__(D.ProcessedNpzDecoder)
dec.fixed_side_input, dec.apply_symmetry = True, False
rng = np.random.default_rng(1)
data = {"board_size": np.full((3, 2), 5, np.int8), "board_input": rng.integers(0, 2, (3, 2, 5, 5)).astype(np.int8), "stm_input": np.array([[-1], [0], [1]], np.float32),
        "value_target": np.array([[.7, .2, .1]] * 3, np.float32), "policy_target": rng.random((3, 5, 5)).astype(np.float32)}
one = [post_process_data({k: v[i] for k, v in data.items()}, fixed_side_input=True) for i in range(3)]
out = dec._post_process_vectorized({k: v.copy() for k, v in data.items()}, [0, 1, 2])
for i in range(3):
    for k in ("board_input", "value_target"):
        assert np.array_equal(out[k][i], one[i][k]), (k, i)
''')

S("D07-features-not-padded-alike", "D07",
  "sparse features, a symmetry option and a non-zero symmetry",
  "the sparse features are transformed only where the policy has no pass column, so with a pass column they keep the old orientation",
  [("utils/data_utils.py", '''            data["board_input"] = picked_symmetry.apply_to_array(data["board_input"])
            if "sparse_feature_input" in data:
                data["sparse_feature_input"]''', '''            data["board_input"] = picked_symmetry.apply_to_array(data["board_input"])
            if "sparse_feature_input" in data and data["policy_target"].ndim != 1:
                data["sparse_feature_input"]''')],
  '''from common import *
from utils.data_utils import post_process_data, Symmetry
rng = np.random.default_rng(3)
for flat in (False, True):
    f = rng.integers(0, 9, (12, 5, 5)).astype(np.int32)
    d = {"board_size": np.array([5, 5], np.int8), "board_input": rng.integers(0, 2, (2, 5, 5)).astype(np.int8), "stm_input": np.array([-1], np.float32),
         "value_target": np.ones(3, np.float32) / 3, "policy_target": rng.random(26 if flat else (5, 5)).astype(np.float32), "sparse_feature_input": f,
         "sparse_feature_dim": np.full(12, 9, np.int32)}
    out = post_process_data(d, symmetry_type=True, symmetry_index=3)
    assert np.array_equal(out["sparse_feature_input"], list(Symmetry)[3].apply_to_array(f)), flat
''')
