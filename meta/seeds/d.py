SEEDS = []


def S(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


S("D01-drain-keeps-cache", "D01",
  "a position saved after the window was snapshotted and the source then ran dry without further offers",
  "draining the shuffle window no longer invalidates the cached snapshot, so the saved position shows the window still open and full",
  [("dataset/shuffle.py", '''            return ()
        self._state_cache = None
        order =''', '''            return ()
        order =''')],
  '''from common import *
from dataset.shuffle import StreamingShuffleReservoir
r = StreamingShuffleReservoir(8, seed=1, epoch=0)
for i in range(6):
    r.offer(i)
before = r.state()
out = r.drain()
s = r.state()
assert s.closed and not s.slots and s.emitted == 6, "snapshot taken before the drain was returned after it"
''')

S("D01-cycle-not-saved", "D01",
  "an epoch longer than one pass over the data (step budget), saved in its second pass and restored",
  "the pass counter of a budgeted epoch is not restored, so the shuffle window and file order of the rest of the epoch differ",
  [("dataset/planner.py", '''        self._source_cycle = state.source_cycle
        if hasattr(self.source''', '''        self._source_cycle = state.source_cycle if self.config.shuffle else 0
        if hasattr(self.source''')],
  '''from common import *
def mk(paths):
    ds = build(paths, batch=4, shuffle=False, steps_per_epoch=12, sequential_active_streams=1)
    return ds, planner_of(ds)
paths = files([20])
class TwoRank:
    pass
import dataset.planner as dp
ds, p = mk(paths)
# a rank-sharded planner restarts its source; drive the restart directly, as a budgeted epoch does
while p._next_emitted() is not None:
    pass
p._rank_sharded = True
p._restart_source_cycle()
p._rank_sharded = False
s = p.state()
assert s.source_cycle == 1
ds2, p2 = mk(paths)
p2.restore(s)
assert p2.state().source_cycle == 1, "pass counter lost by restore"
''')

S("D02-partial-group-commit", "D02",
  "a group commit of several batches, the last one carrying an older pipeline or cursor state",
  "a group commit no longer checks that each batch starts at the cursor where the previous batch ended",
  [("dataset/planner.py", '''            expected_batch += 1
            expected_state = token.after_state
''', '''            expected_batch += 1
            expected_state = token.after_state
            if len(tokens) > 2:
                expected_state = tokens[-1].before_state
''')],
  '''from common import *
import dataclasses
ds = build(files([40]), batch=4, shuffle=True)
p = planner_of(ds)
toks = [p.next_transactional_batch()[1] for _ in range(3)]
forged = dataclasses.replace(toks[1], before_state=toks[2].before_state)
try:
    p.prepare_commit([toks[0], forged, toks[2]])
except RuntimeError:
    pass
else:
    raise SystemExit("group commit accepted a batch that does not start where the previous one ended")
p.commit_prepared(p.prepare_commit(toks))
assert p.committed_epoch == 0
''')

S("D02-train-commits-on-prefetch", "D02",
  "threaded decoding of an npz dataset in training, then abandoning the iteration before the trainer commits",
  "the threaded iterator commits a batch when it is delivered, also in training",
  [("dataset/source_dataset.py", '''        if self.planner.runtime_context.mode != "train":
            self.planner.commit_batch(token)
        return BatchEnvelope(
            data=data,''', '''        if self.planner.runtime_context.mode != "train" or self._finalize_in_prefetch:
            self.planner.commit_batch(token)
        return BatchEnvelope(
            data=data,''')],
  '''from common import *
from dataset.source_dataset import SourceBatchDataset
ds = build(files([40]), batch=4)
p = planner_of(ds)
src = ds._record_source
src.thread_safe_materialization = True
it = SourceBatchDataset(p, src, finalize_batch=lambda d: d, prefetch_workers=2, prefetch_batches=4, finalize_in_prefetch=True)
before = p._committed_digest
g = iter(it)
next(g); next(g)
assert p._committed_digest == before, "delivery moved the committed position"
g.close()
assert p._committed_digest == before and p._yield_digest == before
''')

S("D02-begin-epoch-keeps-digest", "D02",
  "two training epochs and a restart inside the second",
  "starting the next epoch records the previous epoch's position for deliveries while the committed digest moves on",
  [("dataset/planner.py", '''        self.start_epoch(self.epoch + 1)
        self._committed_state = (
            self.state() if self.source.capabilities.resumable else None
        )
        self._yield_state = self._committed_state
        self._committed_digest = self._initial_digest(self.epoch)
        self._yield_digest''', '''        self.start_epoch(self.epoch + 1)
        self._committed_state = (
            self.state() if self.source.capabilities.resumable else None
        )
        self._committed_digest = self._initial_digest(self.epoch)
        self._yield_digest''')],
  '''from common import *
ds = build(files([17]), batch=4)
p = planner_of(ds)
it = iter(ds)
for env in it:
    p.commit_batch(env.token)
it = iter(ds)
env = next(it)
p.commit_batch(env.token)
assert p.committed_epoch == 1
it.close()
''')
