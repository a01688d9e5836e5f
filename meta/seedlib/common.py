"""Shared helper of the planted-bug demonstrations: tiny simple_binary data in a scratch directory."""
import os, sys, tempfile, shutil, atexit, ctypes, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
import numpy as np

SCRATCH = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, SCRATCH, True)


def write_bin(path, n, start=0, size=9):
    """n distinct one-/two-stone entries"""
    from dataset.simple_binary import EntryHead
    with open(path, "wb") as f:
        for i in range(start, start + n):
            h = EntryHead()
            h.result, h.ply, h.boardsize, h.rule = i % 3, 2, size, 0
            h.move = (((i // size) % size) << 5) | (i % size)
            f.write(bytes(h))
            a, b = i % (size * size), (i * 7 + 3) % (size * size)
            for m in (a, b):
                f.write(int(((m // size) << 5) | (m % size)).to_bytes(2, "little"))
    return path


def files(counts):
    out, s = [], 0
    for i, c in enumerate(counts):
        out.append(write_bin(os.path.join(SCRATCH, f"d{i}.bin"), c, s))
        s += c
    return out


def build(paths, mode="train", batch=4, rank=0, world=1, seed=7, kind="simple_binary", **kw):
    from dataset import build_dataset
    from dataset.core import single_process_dataset_context
    ctx = single_process_dataset_context(batch, seed=seed, mode=mode)
    if world != 1:
        import dataclasses
        ctx = dataclasses.replace(ctx, rank=rank, world_size=world)
    kw.setdefault("boardsizes", [(9, 9)])
    kw.setdefault("rules", ["freestyle"])
    return build_dataset(kind, paths, runtime_context=ctx, **kw)


def key(batch):
    """content of one planned batch, hashable"""
    d = batch
    return tuple((k, np.asarray(d[k]).tobytes()) for k in ("board_input", "policy_target") if k in d)


def planner_of(ds):
    return ds._build_partitioned_stream()


def trainer(name="run", counts=(64, 64), iterations=6, val=None, cls=None, **kw):
    """a small CPU training run on scratch data"""
    from trainer.supervised import SupervisedTrainer
    args = dict(rundir=os.path.join(SCRATCH, name), iterations=iterations, batch_size=8, use_cpu=True, performance_level=0,
                dataset_type="simple_binary", train_datas=kw.pop("train_datas", None) or files(counts), val_datas=val,
                dataset_args=dict(boardsizes=[(9, 9)], rules=["freestyle"]), num_worker=0,
                model_type="resnet", model_args=dict(num_blocks=1, dim_feature=4), loss_type="CE+CE",
                log_interval=1000, show_interval=1000, save_interval=2, val_interval=1000, temp_save_interval=1000,
                random_seed=3, learning_rate=1e-2)
    args.update(kw)
    return (cls or SupervisedTrainer)(**args)
