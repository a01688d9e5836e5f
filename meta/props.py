NOTE = ("Static: every obligation is decided on the current source. Sound up to the call resolution and inlining of /verif/sa "
        "and to the listed rules being the right reduction of the property; does not execute code.")
PROPS = []
NA = []


def P(id, title, statement, over, quant, why, files, mech, technique, note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note))


def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


P("D01", "A saved data position restores to exactly the same position",
  "For every reachable data-loading state, saving the position (planner progress, shuffle window contents and random counters, "
  "queued records, and the read cursors and partly consumed entries of every source) and loading it back reproduces that state "
  "field for field, so the remaining sample sequence is the one an uninterrupted run would have produced. "
  "What is saved is always the last committed position, never records that were only delivered, and a cached snapshot is never "
  "returned after the state it describes has changed.",
  ["histories", "crash_points", "configurations"],
  "every point of an epoch at which a checkpoint may be taken, every source kind, packed or object records, any number of save/load rounds",
  "Tests can sample a few stop points of a few sources; the repository's tests do not touch the dataset package at all. The property "
  "quantifies over every stop point and every field of nested state records.",
  ["dataset/planner.py", "dataset/shuffle.py", "dataset/packed.py", "dataset/planner_cpp/packed_shuffle.cpp",
   "dataset/sequential_source.py", "dataset/npz_source.py", "dataset/composite_source.py"],
  [("state/restore and cursor (de)serialisation", "dataset/planner.py: DatasetPlanner.state, restore, _state_to_serializable, _state_from_serializable, state_dict, load_state_dict"),
   ("reservoir snapshots", "dataset/shuffle.py, dataset/packed.py: state/restore"),
   ("source cursors and payloads", "save_cursor/restore_cursor, save_payload/restore_payload in dataset/*_source.py")],
  "symbolic round-trip of save/restore terms over inlined dataflow")

P("D02", "Delivered batches never move the durable data position before commit",
  "The durable data position changes only by construction, loading a checkpoint, starting the next epoch, or committing batches; "
  "a commit is accepted only if every batch in it continues exactly (content digest, epoch and index, pipeline state and cursor) from "
  "the one before it, and preparing a commit changes nothing. Delivering a batch records the position before and after it under a "
  "digest that binds the previous digest, its index, last-batch flag, records, padding mask and pipeline state; training iteration "
  "never commits by itself, and abandoning iteration of a resumable source returns to the committed position. The next epoch starts "
  "only once the current one is finished and fully committed.",
  ["histories", "crash_points", "fault_sequences"],
  "every interleaving of planning, prefetching, delivery, group commits, rollback and epoch changes",
  "Losing or repeating a batch needs a particular order of delivery, failure and commit; no existing test exercises the planner.",
  ["dataset/planner.py", "dataset/source_dataset.py"],
  [("commit protocol", "dataset/planner.py: prepare_commit, commit_prepared, rollback_uncommitted, begin_next_epoch"),
   ("token digest chain", "dataset/planner.py: next_transactional_batch, _token_digest"),
   ("delivery", "dataset/source_dataset.py: SourceBatchDataset.__iter__")],
  "typestate and effect analysis of the commit protocol over inlined CFGs")

P("T06", "A training step commits its data position only after it succeeded",
  "The data positions of the batches a training step consumed are validated, and compared across processes, before the optimizer "
  "changes anything, and exactly those positions are committed once, after the optimizer update and the post-step hook succeeded on "
  "every process. When any part of a step fails, the iteration and sample counters return to their values before the step, nothing is "
  "committed, and the failure is raised on every process. Once optimizer, scheduler or hook state may have changed in a failed step, or "
  "while a step is in progress, no emergency checkpoint is written.",
  ["histories", "fault_sequences", "interleavings"],
  "every point of a training step at which an exception can be raised, on any process, with any number of gradient-accumulation micro-steps",
  "Needs a failure injected at each point of the step followed by a resume; the trainer is not covered by the repository's tests.",
  ["trainer/base.py", "dataset/planner.py"],
  [("step transaction", "trainer/base.py: BaseTrainer._run_train_step, _fetch_batch"),
   ("rollback and emergency save", "trainer/base.py: BaseTrainer.run"),
   ("cross-process error agreement", "trainer/base.py: BaseTrainer._synchronize_phase_errors")],
  "path and typestate rules over the exceptional control-flow graph of the training step")

P("T07", "No checkpoint or validation sees a step whose finite check is unread",
  "Every optimizer update is preceded by a finite check that covers the loss, every loss and auxiliary metric and the gradient norm, on "
  "every process. Where reading the result is deferred, each queued result is still read, in order, after its device copy completed and "
  "before its buffer is reused, and always before the next checkpoint save (periodic, final or emergency) and before a validation pass. A "
  "failed check raises and marks the run divergent; a loss that is not a scalar floating-point tensor with a gradient on the run's device, or "
  "metric names that change, fail it too.",
  ["histories", "interleavings", "inputs"],
  "every schedule of steps, saves, validations, interrupts and the end of the run; every non-finite or structurally wrong value on any process",
  "The window is one step wide and only opens when a value is non-finite just before a save or interrupt.",
  ["trainer/base.py"],
  [("deferred checks", "trainer/base.py: _enqueue_step_validity, _drain_pending_step_validity, _synchronize_step_validity"),
   ("barriers", "trainer/base.py: BaseTrainer.run")],
  "path rules between training steps and observers over the exceptional control-flow graph")

P("O01", "Chained optimizers give every parameter to exactly one sub-optimizer",
  "Every trainable parameter belongs to exactly one sub-optimizer, the first whose filter accepts it, and a parameter that none accepts is "
  "an error, both at construction and for groups added later. A step evaluates the closure at most once, copies each group's current "
  "learning rate to every sub-optimizer group holding its parameters, and then steps every sub-optimizer exactly once. Clearing gradients "
  "and saving and loading state cover every sub-optimizer in matching order.",
  ["inputs", "configurations", "histories"],
  "every list of sub-optimizer specifications and filters, every model, every sequence of steps, scheduler updates and added groups",
  "A parameter trained twice or not at all, or stepped with a stale learning rate, depends on the filters and the history of schedules; "
  "the optimizers are not covered by the repository's tests.",
  ["utils/chained_optimizer.py"],
  [("partition of parameters", "utils/chained_optimizer.py: ChainedOptimizer.__init__, add_param_group"),
   ("step and learning-rate copy", "utils/chained_optimizer.py: ChainedOptimizer.step, _copy_lr_to_optimizers")],
  "loop-coverage and dataflow rules over inlined CFGs")

P("T02", "Checkpoint, export and profile files appear only when completely written",
  "Model checkpoints, training states, runtime sidecars, exported weight files and pipeline records are written under a temporary name in "
  "the same directory that is never mistaken for a finished file, and are published under the final name only after the write succeeded "
  "and the file was closed. A failed or interrupted write never publishes anything. Runtime sidecars are also synced to disk, created "
  "exclusively and never replace an existing file.",
  ["crash_points", "fault_sequences"],
  "a crash or I/O error at every point of every write of these files",
  "Tests would have to kill the process between any two instructions of each writer.",
  ["trainer/base.py", "utils/file_utils.py", "export.py", "dataset/telemetry.py"],
  [("atomic training state", "trainer/base.py: _atomic_torch_save, _write_vq_runtime_sidecar"),
   ("atomic model checkpoint", "utils/file_utils.py: save_torch_ckpt"),
   ("atomic export", "export.py: export_serialization"),
   ("profile and run record", "dataset/telemetry.py: save, _write_run_record")],
  "typestate of written files (open, written, closed, published) over exceptional CFGs")

P("T03", "A background checkpoint save freezes the save point; its failure fails the run",
  "A save starts only after the previous one has finished and any failure of it has been raised. It writes copies of all tensors taken at "
  "the save point (the copy waits for pending updates, later updates wait for the copy, and writing waits for the copy), each file to its "
  "own destination, every model before the training state, and old files are pruned only after all writes succeeded. A failed write is "
  "kept, raised on every process at the next flush, and every later save, the end of a run and shutdown perform that flush.",
  ["interleavings", "fault_sequences", "histories"],
  "every interleaving of the writer thread, training steps, further saves, write failures and the end of the run",
  "The races need a GPU stream, a slow disk or a failing write at a particular time.",
  ["utils/async_checkpoint.py", "trainer/base.py"],
  [("writer", "utils/async_checkpoint.py: AsyncCheckpointWriter, _stage_tree"),
   ("save and flush", "trainer/base.py: _save_checkpoint, _save_checkpoint_main, _flush_async_checkpoint_collectively, _run_synchronized_operation, _shutdown_resources")],
  "path, happens-before and alias rules over exceptional CFGs")

P("E01", "Exports never advertise rules or board sizes that were not requested",
  "Exporting requires the rules to be given explicitly (as one rule or a non-empty list) and accepts only freestyle, standard and renju and "
  "integer board sizes from 1 to 32 (all of them when none is given); both are validated before any output file is created or overwritten. "
  "The declared rule mask holds exactly the requested rules (freestyle 1, standard 2, renju 4) and the board-size mask bit n-1 for each "
  "requested size n, both ends of a size range included. The ONNX model version packs the I/O version (1 to 32767, bit 48), rule mask (bit "
  "32) and board-size mask (bit 0) and unpacks to the same values, and the saved ONNX file carries it.",
  ["inputs", "configurations"],
  "every combination of rule and board-size options and every model type",
  "Quantifies over all option combinations; the export entry points are not covered by the repository's tests.",
  ["export.py", "model/serialization/__init__.py", "model/serialization/mixnet.py", "model/serialization/flatnet.py"],
  [("validation", "model/serialization/__init__.py: get_rules_from_args, get_boardsizes_from_args, build_serializer"),
   ("masks", "model/serialization/__init__.py: rules_to_mask, boardsizes_to_mask"),
   ("model version", "export.py: make_onnx_model_version, parse_onnx_model_version, export_onnx")],
  "validation-dominance, bit-field and value-set analysis over inlined CFGs")

P("E02", "Weight files start with the exact engine header and hold the checkpoint",
  "A binary weight file whose format needs a header starts, before any weight and unless a header-less export type was chosen, with magic "
  "number, architecture hash, rule mask, board-size mask and description length, each 4 bytes little-endian unsigned, then the UTF-8 "
  "description. Each export type (torch-jit, onnx, txt, bin, bin-noheader, bin-lz4, bin-lz4-noheader) selects its own writer, container and "
  "header mode, binary formats are written in binary mode, and an unknown type is an error. Every export writes the model in evaluation "
  "mode with the chosen checkpoint's model weights loaded strictly; a given checkpoint is never replaced by a searched one.",
  ["inputs", "configurations"],
  "every export type, model type, checkpoint and option combination",
  "The header is read by an engine outside this repository; the export path is not covered by the repository's tests.",
  ["export.py", "model/serialization/__init__.py", "model/serialization/flatnet.py"],
  [("header", "export.py: export_serialization"), ("export types and weights", "export.py: export"),
   ("need for a header", "model/serialization: needs_header, is_binary")],
  "byte-layout extraction and path rules over inlined CFGs")

P("E03", "Exported integer weights are clipped or refused, never wrapped around",
  "For every model with finite weights and every export option, each number an engine weight export converts to an 8-, 16- or 32-bit "
  "integer, in binary or text form, lies inside that integer type when it is converted, and each number packed into a narrower bit field "
  "(10-bit line features, 4-bit nibbles, 16-bit code indices) lies inside that field. A weight too large for its type or field is clipped to a "
  "limit inside it, also after single-precision rounding of the limit, or the export stops with an error.",
  ["inputs", "configurations"],
  "every serializer of the engine weight formats, every weight value, every board size, rule and text/binary option",
  "A wrapped weight changes its sign and silently ruins an exported network; only particular weight values trigger it and no test exports a model.",
  ["model/serialization/mixnet.py", "model/serialization/flatnet.py"],
  [("quantization of weights", "model/serialization/mixnet.py: _export_*"), ("packing", "model/serialization/mixnet.py: write_feature_map_compressed"),
   ("flat networks", "model/serialization/flatnet.py: _export_*")],
  "abstract interpretation with intervals and symbolic magnitude bounds over every serializer")

P("D07", "Augmentation gives a record's board, features, policy and moves one symmetry",
  "When augmentation is on, the board, the feature planes, the policy (all but its pass entry), the last move and the rendered move list of a record are turned by the same single symmetry "
  "of its board, chosen from a set of distinct symmetries that keep the board's shape, and a move lands on the cell its square lands on. With a fixed side, board, features and value swap "
  "sides together, exactly if white is to move; with a fixed size, zeros are added on the far sides of each array after the symmetry. Row-by-row and batched processing both do "
  "this to every row, with that row's own symmetry, and never write into stored arrays.",
  ["inputs", "configurations"],
  "every record, every symmetry, both policy layouts, with and without features, moves, fixed side and fixed size, and every way the symmetries fall on the rows of a batch",
  "The combinations of options, layouts and symmetries are many and the existing tests run none of them; a wrong turn of one field leaves shapes and types intact.",
  ["utils/data_utils.py", "dataset/decoder.py", "dataset/simple_binary.py", "dataset/packed_binary.py", "dataset/katago.py", "dataset/sparse_numpy.py"],
  [("one record", "utils/data_utils.py: Symmetry, SamplePostProcessor"), ("batched", "dataset/decoder.py: ProcessedNpzDecoder._post_process_vectorized")],
  "abstract interpretation in a domain of array geometry (field, sequence of flips, swaps, selections, symmetries and paddings, symbolic shapes), over every combination of options")

P("T10", "Evaluation counts every real record once; replayed or padded rows never",
  "In validation and testing all processes run the same rounds, each batch is evaluated once, and a process that has run out replays one "
  "that adds nothing to any statistic or count. Loss and metric statistics are made only from rows flagged real; batches and processes "
  "combine by adding sums and counts (or taking the largest value of those that have one) before one division, statistics of a global batch "
  "being first reduced over the processes to that batch's mean; an evaluation without batches, or a maximum without values, is refused. "
  "Every model is in evaluation mode without gradients for every step, and validation leaves the models in training mode.",
  ["inputs", "configurations", "schedules"],
  "every number of batches per process, every pattern of padded rows, every loss type, with and without teacher, board mask and auxiliary heads",
  "A wrong weight for a padded or replayed row only shifts a reported number, and only for data that does not divide evenly; neither the "
  "trainer nor the metrics are covered by the repository's tests.",
  ["trainer/base.py", "trainer/loss/supervised.py", "trainer/metric/supervised.py", "dataset/core.py"],
  [("rounds", "trainer/base.py: _iter_collective_safe_batches, _validate, test"),
   ("reduction", "trainer/base.py: _finalize_masked_global_batch, _gather_averaged_metrics; dataset/core.py: SumCount, Maximum, SufficientStats"),
   ("masking", "trainer/loss/supervised.py, trainer/metric/supervised.py")],
  "abstract interpretation: structural values of the statistics over all paths, every schedule of up to three batches on two processes")

P("T13", "The map-style sampler splits each epoch exactly and resumes exactly",
  "The map-style training sampler orders each epoch by a permutation derived only from seed and epoch number, and announces each epoch to "
  "the data source and everything it wraps; process r of w takes positions r, r+w, r+2w and so on, the same number on each process. The "
  "saved cursor moves only by committing a contiguous advance that does not exceed what was read, or by loading; discarding staged work "
  "returns every cursor to the committed one. A saved cursor loads only for the same data length, shuffle flag, seed, process count and "
  "rank and an offset within range, checked before anything changes, and loading resets every cursor.",
  ["inputs", "configurations", "histories"],
  "every data length, process count, stop point and sequence of stage, commit, rollback, save and load",
  "Quantifies over histories and process counts; the sampler is not covered by the repository's tests.",
  ["utils/training_utils.py", "trainer/base.py"],
  [("sampler", "utils/training_utils.py: ResumableSampler"), ("use", "trainer/base.py: _setup_data")],
  "who-writes, dominance and value analysis over inlined CFGs")

P("T14", "Validation reports the loss that training minimises",
  "For the same rows, model outputs and options, validation and training report the same loss terms, and each validation statistic, added "
  "up over batches and processes and divided once, equals the value training reports; its total equals the loss training minimises. This "
  "holds for every loss type and focal exponent, for one- and three-valued results, with and without board mask, ignored forbidden "
  "points, policy regularisation, value-policy ratio, teacher (temperature and mixing weight) and auxiliary value, policy, "
  "regularisation and uncertainty heads with given or default weights.",
  ["inputs", "configurations"],
  "every batch and model output, and the listed options in combination",
  "The two are computed by separate code; a difference shows only as a shift between the two curves under one combination of options, and "
  "the losses are not covered by the repository's tests for those combinations.",
  ["trainer/loss/supervised.py", "trainer/loss/utils.py", "utils/training_utils.py", "dataset/core.py"],
  [("training", "trainer/loss/supervised.py: compute_supervised_losses"),
   ("validation", "trainer/loss/supervised.py: compute_supervised_loss_statistics; dataset/core.py: FINALIZERS"),
   ("kernel", "utils/training_utils.py: cross_entropy_with_softlabel")],
  "abstract interpretation: value numbering of both computations, rows as terms, whole-batch numbers as images in a random field")

P("T08", "A checkpoint holds everything and every part returns to its place",
  "A training checkpoint holds, for its save point, every trained model's weights (each in its own file, same iteration), every "
  "optimizer's and scheduler's state, the gradient scaler's if there is one, the iteration, epoch and row counters, and for each process "
  "its data position (stream or sampler cursor), pipeline tuning, quantizer runtime reference and Python, NumPy, CPU and GPU "
  "random-generator states. Resuming puts each back into the object it came from, each process taking its own entry; learning rates "
  "end as saved, after schedulers are restored. Random generators are restored last, before the first training batch is requested.",
  ["histories", "crash_points", "configurations"],
  "every save point and every combination of models, optimizers, schedulers, data source kinds and process counts",
  "A part that is dropped or put back in the wrong place only shows as a different training run after a resume; the trainer is not "
  "covered by the repository's tests.",
  ["trainer/base.py"],
  [("what is saved", "trainer/base.py: _save_checkpoint_main, _build_training_state, _local_resume_state"),
   ("what is restored", "trainer/base.py: _load_state_checkpoint, _restore_continuation_state, _restore_rng_state")],
  "symbolic round-trip of saved and restored terms over inlined dataflow")

P("T04", "A checkpoint that does not fit the run is refused; the newest is chosen",
  "Before anything is loaded, resuming refuses a training state whose format, file name against counter, optimizer or scheduler "
  "configuration (kind, options, base rates, parameter layout, iterations), process count, per-process entries (slot, rank, own and shared "
  "digest; none missing, duplicated or unsupported) or data signature (every data-shaping option and the content hash of every whole "
  "training file) differs from the current run. The model files must exist and have the state's iteration, and the saved optimizer and "
  "scheduler names must be the run's. Old merged checkpoints of a started run are refused. The state file with the numerically highest "
  "iteration is always the one resumed.",
  ["inputs", "configurations", "crash_points"],
  "every saved state, damaged or foreign, every configuration change between runs and every set of files in the run directory",
  "Each refusal needs its own foreign checkpoint; the trainer is not covered by the repository's tests.",
  ["trainer/base.py", "utils/file_utils.py"],
  [("checks before loading", "trainer/base.py: _load_state_checkpoint, _validate_rank_resume_states, _data_stream_signature_matches"),
   ("data signature", "trainer/base.py: _build_data_stream_signature, _training_file_identity"),
   ("newest state", "utils/file_utils.py: find_latest_ckpt, get_iteration_from_ckpt_filename")],
  "validation-dominance and value analysis over inlined CFGs")

P("T05", "Checkpoints are saved exactly when due and pruning keeps what it must",
  "A checkpoint is saved at exactly the multiples of the save, temporary and (if set) state intervals; its training state is written "
  "when no state interval is set, when that interval divides the iteration, at the end, and when a run stops on an error at a safe "
  "point; an existing state of the iteration is validated, not replaced. Pruning deletes model files only for iterations this session "
  "saved off the save interval, never the newest or one whose state is kept; of the states only the lowest iterations beyond the "
  "configured number (negative keeps all); of the runtime files those no kept state names. It deletes nothing before every kept state "
  "has been validated.",
  ["histories", "configurations", "crash_points"],
  "every combination of intervals, retention setting, earlier sessions and directory contents",
  "A wrongly deleted file shows only when that checkpoint is needed; the trainer is not covered by the repository's tests.",
  ["trainer/base.py"],
  [("schedule", "trainer/base.py: _is_save_iteration, run, _save_checkpoint, _save_checkpoint_main"),
   ("retention", "trainer/base.py: _cleanup_checkpoints")],
  "decision tables of branch conditions, dominance and value analysis over inlined CFGs")

P("T01", "A failure on any process stops every process at the same place",
  "Wherever the training run exchanges failure reports, digests, metric names or batch availability between processes, every process takes "
  "part, whatever its rank or local outcome: a local failure is caught whole and handed over, and any reported failure, missing batch or "
  "difference between values that must agree (compared over all processes) is raised on every process before anything else is done. A "
  "single process's own report is judged the same way. Work run between barriers, on all processes or the main one, enters no collective "
  "operation of its own.",
  ["fault_points", "interleavings", "configurations"],
  "every process count, every process and place at which something fails, and every combination of differing values",
  "Needs several processes and a failure on one of them; a mistake shows as a hang or silent divergence.",
  ["trainer/base.py"],
  [("exchanges", "trainer/base.py: _collective_dataset_call, _run_synchronized_operation, _synchronize_phase_errors, gather_object call sites"),
   ("batch availability", "trainer/base.py: _fetch_batch")],
  "rank-dependence, handler coverage and path rules at every exchange over the exceptional control-flow graph")

P("D08", "A data filter expression can only select rows, within fixed limits",
  "A data filter is parsed and evaluated by a whitelist: numbers, data fields, arithmetic, bitwise and comparison operators (chains conjoined), literal "
  "indexing and six element-wise functions called with exactly their inputs; anything else is an error, nothing else runs and the data is never "
  "changed. Expressions over 4096 bytes, 128 syntax nodes, nesting 16, 64-item or non-finite or over-64-bit literals, exponents over 8, and results "
  "over 64 MiB or over both 4096 and eight times the row count in elements are refused, element-wise results before they are computed. "
  "The value must be a boolean per row, and exactly the rows accepted by every configured filter are kept, in every field.",
  ["inputs"],
  "every expression string and every set of data fields",
  "The space of expressions is unbounded and the bad ones are rare; no existing test evaluates a filter.",
  ["dataset/filter.py", "dataset/decoder.py", "utils/data_utils.py", "dataset/katago.py"],
  [("evaluator", "dataset/filter.py: SafeFilterEvaluator"), ("row selection", "dataset/decoder.py: ProcessedNpzDecoder._load_uncached; utils/data_utils.py: filter_data_by_condition")],
  "path reachability under abstract inputs (partial evaluation of every branch condition) over inlined CFGs")

P("D05", "Which samples are drawn, in which order and how augmented, is fixed by the seed",
  "In the streamed data path, which records a sampling rate keeps, the file order and shuffling, and the symmetry applied to a record depend only on the configured seed, the epoch, the repeat of the data within it, and the identity of the record or set of files; nothing there uses unseeded randomness, the clock, process identity, or the arbitrary order of sets, directory listings or finishing worker threads. Each draw is keyed with all of these (with a record's whole key, never a part of it) and none of the per-record draws with the process or worker, so another seed, epoch or repeat gives other draws and decoding a record alone, in a block, or on another process gives the same. Exactly the records whose draw admits them are passed on, under the key and epoch they were admitted with, and the symmetry drawn is the one applied, from the list it was drawn for.",
  ["inputs", "configurations", "schedules"],
  "every record, seed, epoch, repeat, source kind and decoding path",
  "A missing key component shows only as a statistical correlation or as two runs differing on another machine; no existing test compares runs.",
  ["dataset/core.py", "dataset/npz_source.py", "dataset/sequential_source.py", "dataset/decoder.py", "dataset/shuffle.py", "dataset/packed.py", "dataset/source_dataset.py", "utils/file_utils.py"],
  [("keyed draws", "dataset/core.py: rng_u64, uniform_below, deterministic_permutation, sample_is_admitted"), ("file order and admission", "dataset/npz_source.py: start_cycle, next_envelopes, next_packed_records; dataset/sequential_source.py: _file_order, _next_pending_envelope"),
   ("augmentation", "dataset/decoder.py: decode_one, _post_process_vectorized; dataset/simple_binary.py, dataset/packed_binary.py: materialize_entry")],
  "effect analysis of the data path and provenance of every random draw's key")

P("D06", "One pass over the data hands over each admitted record exactly once",
  "In one pass over the configured data, every record the sampling rate admits is put into exactly one batch row marked as real, whatever the shuffle window, read-ahead limits, sources read side by side, or division of rows and files among processes; none is skipped, repeated or lost at file, block, refill or remainder boundaries. "
  "Rows added to fill the last evaluation batch only repeat real rows and are marked as padding; only training may drop an incomplete last batch, and only sources read in lockstep may stop together at the shortest one.",
  ["inputs", "configurations", "schedules"],
  "every set of files, sampling rate, window, limit, weight and world size",
  "A loss needs particular counts at particular boundaries; the data path has no tests.",
  ["dataset/npz_source.py", "dataset/sequential_source.py", "dataset/composite_source.py", "dataset/planner.py", "dataset/shuffle.py", "dataset/packed.py"],
  [("walk over the rows", "dataset/npz_source.py: next_envelopes, next_packed_records; dataset/sequential_source.py: next_envelope"),
   ("shuffle window", "dataset/shuffle.py, dataset/packed.py: offer*, drain"), ("batches and remainders", "dataset/planner.py: next_batch, _refill_ready, local_slice"),
   ("sources read together", "dataset/composite_source.py: next_envelopes, _fill_cycles")],
  "path-segment summaries with linear position arithmetic: conservation of records along every loop iteration")

N("X01", "The exported integer network evaluates like the trained network",
  "For every position, the value and policy computed by an engine from an exported weight file equal the trained network's outputs up to the "
  "rounding the quantisation scheme allows.",
  ["inputs", "configurations"], "every trained weight set and every board position",
  "Depends on the trained values; a test samples a few weight sets and positions.",
  ["model/serialization", "model/mixnet.py", "utils/quant_utils.py"],
  [("quantised weight export", "model/serialization/mixnet.py, model/serialization/flatnet.py")],
  "an equality of real-valued computations up to an error bound that depends on the trained weights; no static argument in reach bounds it "
  "(the container, header and field order are decided under E01/E02)")
N("X02", "Custom operators compute the reference operators' values and gradients",
  "For every input, each custom or fused kernel returns the values and gradients of its reference implementation within floating-point tolerance.",
  ["inputs"], "every tensor shape, dtype, stride and value",
  "Needs execution on the device over all inputs; the repository's tests sample it.",
  ["model/ops", "utils/fused_adamw.py", "utils/muon.py"],
  [("fused kernels", "custom CUDA/Triton operators and their Python fallbacks")],
  "numerical equivalence of CUDA kernels with reference code; not decidable from the source by dataflow, and no GPU to compile against")
N("X03", "Training is bitwise reproducible on the same hardware",
  "Two runs with the same configuration, data and hardware produce bitwise identical weights.",
  ["configurations", "schedules"], "every run on every device",
  "Depends on library and device kernels outside the repository.",
  ["train.py", "trainer/base.py"],
  [("seeding", "train.py, trainer/base.py: set_seed and random-state restore")],
  "depends on the determinism of third-party kernels; the repository-side part (what is saved, restored and drawn from which generator) is covered by T08, D01 and D05")
N("X04", "Data loading keeps the device busy within the configured memory",
  "The pipeline's worker, queue and prefetch settings chosen by tuning keep the training step from waiting while resident memory stays below the limit.",
  ["schedules", "configurations"], "every machine and data set",
  "A performance property of the machine and the data.",
  ["trainer/base.py", "dataset/telemetry.py"],
  [("pipeline tuning", "dataset/telemetry.py and trainer/base.py")],
  "throughput and memory are runtime quantities; no static argument bounds them")
N("X05", "Shuffling mixes the data uniformly",
  "The order in which a pass delivers samples is statistically close to a uniform shuffle for the configured window size.",
  ["inputs", "configurations"], "every data set and window size",
  "A distributional property.",
  ["dataset/shuffle.py", "dataset/packed.py"],
  [("reservoir shuffle", "dataset/shuffle.py, dataset/packed.py, dataset/planner_cpp/packed_shuffle.cpp")],
  "a statistical property of generated sequences; only determinism and restorability (D01, D05) are decidable statically")
