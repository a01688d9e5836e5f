SEEDS = []


def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


S("D05-repeat-same-epoch", "D05",
  "an epoch longer than one pass over sequential data (step budget), with a symmetry option",
  "in the repeated passes of an epoch a sequential record carries the epoch itself instead of the number drawn for the repeat, so it is augmented under another number than it was admitted with",
  [("dataset/sequential_source.py", '''                        None if self.subrecord_count is None else subrecord,
                        self._augmentation_epoch(cursor),''', '''                        None if self.subrecord_count is None else subrecord,
                        cursor.epoch,''')],
  '''from common import *
from dataset.sequential_source import InterleavedSequentialSource
ds = build(files([12]), batch=2, shuffle=False, apply_symmetry=True, steps_per_epoch=30, sequential_active_streams=1)
ds._build_partitioned_stream()
src = ds._record_source
cur = src.start_cycle(4, 1, 0)
want = src._augmentation_epoch(cur)
assert want != 4
env, cur = src.next_envelope(cur)
assert env.payload.augmentation_epoch == want, "a repeated record is augmented as in the first pass"
''')

S("D05-subdirs-unsorted", "D05",
  "a data path that is a directory with several sub-directories, on a file system that lists them in another order",
  "sub-directories are visited in the order the file system lists them, so the numbering of the files (and every order drawn from it) depends on the machine",
  [("utils/file_utils.py", '''            for root, dirs, files in os.walk(path):
                dirs.sort()
''', '''            for root, dirs, files in os.walk(path):
                dirs = sorted(dirs)
''')],
  '''from common import *
import os
from utils import file_utils
base = os.path.join(SCRATCH, "tree")
for d in ("b", "a", "c", "aa"):
    os.makedirs(os.path.join(base, d))
    open(os.path.join(base, d, "x.bin"), "w").close()
real = os.scandir
class Rev:
    def __init__(self, it, rev):
        self.e = sorted(it, key=lambda e: e.name, reverse=rev)
        self.i = iter(self.e)
    def __iter__(self): return self
    def __next__(self): return next(self.i)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
out = []
for rev in (False, True):
    os.scandir = lambda p=".", rev=rev: Rev(real(p), rev)
    out.append(file_utils.make_file_list([base], [".bin"]))
os.scandir = real
assert out[0] == out[1], "the file list depends on the listing order"
''')

S("D05-scalar-own-stream", "D05",
  "processed npz data whose records are decoded one at a time (fallback) in one run and in blocks in another, with a symmetry option",
  "the one-record decoder draws symmetries from a different stream than the block decoder, so the same record of the same epoch is augmented differently depending on how it was decoded",
  [("dataset/decoder.py", '''            symmetry_index = _uniform_below_for_processed_sample_keys_v2(
                len(choices),
                self.runtime_context.seed,
                "symmetry",
                self._active_epoch,
                [ref.sample_key],
            )[0]''', '''            symmetry_index, _ = uniform_below(
                len(choices),
                self.runtime_context.seed,
                "symmetry",
                (self._active_epoch, ref.sample_key, 0),
            )''')],
  '''from common import *
import dataset.decoder as d
from dataset.core import single_process_dataset_context, _uniform_below_for_processed_sample_keys_v2 as v2
import dataset.core as core
from types import SimpleNamespace as NS
dec = object.__new__(d.ProcessedNpzDecoder)
dec.runtime_context = single_process_dataset_context(2, seed=5, mode="train")
dec._active_epoch = 3
dec.apply_symmetry = True
dec.has_pass_move = False
dec.fixed_side_input = False
dec.fixed_board_size = None
dec.format_id = "x"
got = []
import utils.data_utils as du
d.post_process_data = lambda data, **k: got.append(k["symmetry_index"]) or data
N = 9
keys = [("root", bytes([7]) * 32, "npz-row", (i,)) for i in range(40)]
bf = np.zeros((40, 2, N, N), np.int8); gf = np.ones((40, 1), np.float32)
vt = np.zeros((40, 3), np.float32); pt = np.zeros((40, N, N), np.float32)
arrays = {"bf": bf, "gf": gf, "vt": vt, "pt": pt}
dec._load = lambda *a, **k: arrays
for i, k in enumerate(keys):
    dec.decode_one(NS(path="p", sample_key=k, row=i, address=k[3], file_ordinal=0, shape_code=0))
want = v2(8, 5, "symmetry", 3, keys)
assert got == want, "one-record decoding draws other symmetries than block decoding"
''')

S("D06-packed-count-scanned", "D06", "an unsharded NPZ source with a low sample_rate, where one whole block of the walk admits no record",
  "a block is counted by the rows scanned instead of the rows admitted, so an empty block is handed over in the middle of the data and the planner takes it for the end of the pass",
  [("dataset/npz_source.py", '''                    admitted.append(descriptor.global_row_begin + row)
            if admitted:
                values = np.asarray(admitted, dtype=np.uint64)
                parts.append(values)
                count += len(values)
        while file_position''', '''                    admitted.append(descriptor.global_row_begin + row)
            if admitted:
                values = np.asarray(admitted, dtype=np.uint64)
                parts.append(values)
            count += take
        while file_position''')],
  '''from common import *
import dataset.npz_source as ns
src = object.__new__(ns.DenseNpzSource)
D = ns.DenseNpzFileDescriptor
src.descriptors = (D("a", 0, b"a" * 32, 64, 0, (9, 9), 0), D("b", 1, b"b" * 32, 64, 64, (9, 9), 0))
src.sample_rate, src.seed, src._rank_sharded, src._world_size = 0.05, 11, False, 1
want = []
for d in src.descriptors:
    for r in range(64):
        if ns.sample_is_admitted(0.05, 11, 0, src._record_key(d, r, 0)):
            want.append(d.global_row_begin + r)
cur, got = ns.DenseNpzCursor(0, 0, 0, (0, 1), 0, 0), []
while True:
    block, cur = src.next_packed_records(cur, 4)
    if not len(block):
        break
    got += [int(x) for x in block.record_ids]
assert want and got == want, f"{len(got)} of {len(want)} admitted records handed over"
''')

S("D06-composite-lane-ends", "D06", "a composite without sync_length whose first-scheduled child runs out before the others",
  "an exhausted child ends the weighted round, so the records already fetched from the later children in that round are discarded",
  [("dataset/composite_source.py", '''                if position >= len(child_envelopes[child]):
                    continue
                pending.append(''', '''                if position >= len(child_envelopes[child]):
                    break
                pending.append(''')],
  '''from common import *
import dataset.composite_source as cs
class Child:
    def __init__(self, n): self.n = n
    def next_envelopes(self, cur, limit):
        e = min(self.n, cur + limit)
        return tuple(range(cur, e)), e
c = object.__new__(cs.CompositeRecordSource)
c.child_sources, c.weights, c.sync_length = (Child(3), Child(9)), (1, 1), False
c.schedule = cs._weighted_cycle(c.weights)
c._wrap = lambda child, e: (child, e)
cur = object.__new__(cs.CompositeCursor)
for k, v in dict(child_cursors=[0, 0], exhausted=[False, False], terminal=False, pending=[], pending_position=0, cycle_index=0).items():
    setattr(cur, k, v)
got = []
while True:
    part, cur = c.next_envelopes(cur, 4)
    if not part:
        break
    got += part
assert sorted(got) == [(0, i) for i in range(3)] + [(1, i) for i in range(9)], got
''')

S("D06-remainder-one-shape", "D06", "evaluation over records of two or more board sizes whose counts both leave a remainder",
  "the first padded remainder batch ends the pass, so the remainders of the other board sizes are never evaluated",
  [("dataset/planner.py", '''                is_last = not any(self._shape_queues.values())
                if is_last:
                    self._finished = True
                return self._make_batch(''', '''                is_last = not any(self._shape_queues.values())
                self._finished = True
                return self._make_batch(''')],
  '''from common import *
paths = [write_bin(os.path.join(SCRATCH, "a.bin"), 6, 0, 9), write_bin(os.path.join(SCRATCH, "b.bin"), 7, 0, 11), write_bin(os.path.join(SCRATCH, "c.bin"), 5, 0, 13)]
ds = build(paths, mode="validate", batch=4, boardsizes=[(9, 9), (11, 11), (13, 13)], shuffle=False)
p = planner_of(ds)
p.start_epoch(0)
keys = []
while (b := p.next_batch()) is not None:
    keys += [e.record_key for e, r in zip(b.envelopes, b.is_real) if r]
assert len(keys) == 18 and len(set(keys)) == 18, f"{len(set(keys))} of 18 records handed over"
''')

S("D06-multi-eviction-lost", "D06", "a shuffle window with a byte limit, offered a large record that displaces several small ones at once",
  "when one record displaces several others only the last one displaced is handed on, the rest are lost",
  [("dataset/shuffle.py", '''        self._state_cache = None
        emitted: list[ItemT] = []
        while self._slots and (
            len(self._slots) >= self.capacity or not self._fits(size_bytes)
        ):
            emitted.append(self._evict_slot(self._random_slot()))
''', '''        self._state_cache = None
        emitted: list[ItemT] = []
        while self._slots and (
            len(self._slots) >= self.capacity or not self._fits(size_bytes)
        ):
            emitted = [self._evict_slot(self._random_slot())]
''')],
  '''from common import *
from dataset.shuffle import StreamingShuffleReservoir as R
import inspect
kw = {k: v for k, v in dict(capacity=100, max_bytes=100, seed=3, epoch=0, stream_id="s", namespace="n", rank=0, identity="i").items() if k in inspect.signature(R.__init__).parameters}
r = R(**kw)
out = []
for i in range(20):
    out += r.offer(i, size_bytes=10 if i % 6 else 60)
out += r.drain()
assert sorted(out) == list(range(20)), sorted(out)
''')
