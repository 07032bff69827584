"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe,
      state=(), hook=False):
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                   mechanism=[dict(name=n, where=w) for n, w in mechanism],
                   observe_at=observe, hook_needed=None)))


# ------------------------------------------------------------- checkpoints
p('C01', 'Saving a checkpoint is crash-atomic',
  'If the process dies at any point while a native checkpoint is saved, every step that is afterwards reported as available restores completely and to exactly the values saved for that step, and every checkpoint committed earlier that retention has not superseded is still there. The step being saved is available if and only if the save got past its commit. After restart, saving the same or a later step succeeds and yields a restorable checkpoint.',
  ['crash_points', 'histories'],
  'All file-system states between two consecutive mutating libc calls (and half-done writes) of save histories of up to three steps, with and without dataset iterator state, retention and pinning.',
  'checkpoints_test is not in the runnable suite, and no test interrupts a save; crash states are between the file operations, not at API boundaries.',
  ['t5x/checkpoints.py', 't5x/checkpoint_utils.py', 't5x/checkpoints_utils.py'],
  [('write to temporary directory, rename to final', 't5x/checkpoints.py Checkpointer.save'),
   ('directory name filter', 't5x/checkpoints_utils.py all_steps/latest_step')],
  ['Checkpointer.save', 'Checkpointer.all_steps', 'Checkpointer.restore'],
  [('checkpoint_{step}', 'a committed checkpoint', 'checkpoint directory'),
   ('checkpoint_{step}.tmp-*', 'a save in progress', 'checkpoint directory')])

p('C02', 'Retention keeps the newest checkpoints and never removes a pinned one',
  'After every save, the checkpoints available are exactly the newest `keep` ones (pinned ones count) plus all pinned ones, or all of them when no limit is configured, and the same holds separately for the retained dataset-iterator states. A pinned checkpoint is never deleted by retention, retained checkpoints are left byte for byte as they were, and pinning and unpinning change nothing else.',
  ['histories', 'configurations'],
  'All sequences, up to a depth, of save / pin / unpin / re-open operations for every keep setting, compared with a reference model after every operation.',
  'The tests save a couple of steps in one order; the property is about every interleaving of saves, pins and restarts.',
  ['t5x/checkpoints.py', 't5x/checkpoint_utils.py', 't5x/checkpoints_utils.py'],
  [('old-checkpoint removal', 't5x/checkpoints.py Checkpointer._remove_old_checkpoints'),
   ('dataset checkpoint removal', 't5x/checkpoints.py Checkpointer._remove_old_dataset_checkpoints'),
   ('pin files', 't5x/checkpoint_utils.py pin_checkpoint_dir/is_pinned_checkpoint/remove_checkpoint_dir')],
  ['Checkpointer.save', 'Checkpointer.all_steps', 'directory listing'])

p('C03', 'Best-checkpoint retention keeps the best by metric',
  'With metric-based retention, after every save the retained set contains the most recent checkpoint, the best `keep` of the others by the configured metric and direction, every pinned checkpoint, every checkpoint on the force-keep period, and, when configured, those without metrics; nothing else is retained.',
  ['histories', 'configurations'],
  'All metric-value histories of bounded length over a small value alphabet including ties and missing metrics, for each keep / mode / force-keep-period configuration.',
  'The existing tests do not run here and sample one history per configuration.',
  ['t5x/checkpoints.py'],
  [('filter and sort by metric', 't5x/checkpoints.py SaveBestCheckpointer')],
  ['SaveBestCheckpointer.save', 'SaveBestCheckpointer.all_steps'])

p('C04', 'A checkpoint restores exactly what was saved',
  'Restoring a saved training state gives back every parameter, optimizer slot, step and mutable collection with the same tree structure, shape and value; the requested save/restore precision applies to the parameters and to nothing else, and a restored tree whose parameter shape differs from the saved one is refused. Dataset-iterator state comes back as saved for the same step.',
  ['inputs', 'configurations'],
  'All combinations of a bounded family of parameter trees (ranks 0-3, nesting, names), dtypes, save/restore dtypes, mesh and parameter partitioning, optimizer families and flax mutable collections; values must be equal bit for bit where no cast applies.',
  'Round-trip tests do not run here and use one fixed tree; equality must hold for each tree, dtype and partitioning.',
  ['t5x/checkpoints.py', 't5x/train_state.py'],
  [('per-array write and read', 't5x/checkpoints.py Checkpointer._write_state_to_tensorstore/_read_state_from_tensorstore'),
   ('dtype policy', 't5x/checkpoints.py Checkpointer.save/restore')],
  ['Checkpointer.save', 'Checkpointer.restore', 'load_t5x_checkpoint'])

p('C05', 'Restore picks the checkpoint that was asked for',
  'Asking for a step restores that step, asking for none restores the numerically largest completed one (step 0 included), and asking for one that does not exist fails instead of returning another. Partial, temporary, malformed or foreign directory entries are never taken for a checkpoint. With several configured directories the first one that holds a checkpoint wins.',
  ['configurations', 'histories'],
  'All directory contents drawn from a bounded alphabet of entries (completed steps with differing digit counts, temporary directories, files of the same name, foreign names), for all restore requests and modes.',
  'Tests list a fixed set of directories; the property ranges over directory contents and requests.',
  ['t5x/checkpoints.py', 't5x/checkpoints_utils.py', 't5x/checkpoint_utils.py', 't5x/utils.py'],
  [('step listing', 't5x/checkpoints_utils.py all_steps/latest_step/get_step_from_checkpoint_dir'),
   ('request resolution', 't5x/checkpoints.py find_checkpoint, t5x/utils.py get_restore_config/restore'),],
  ['Checkpointer.restore', 'latest_step', 'find_checkpoint', 'load_t5x_checkpoint'])

p('C06', 'Hosts together write every array element exactly once',
  'For every device mesh, host assignment and partitioning, the chunks of a global array computed for the hosts tile the array: their union covers every element, chunks that overlap are identical replicas, and exactly one replica of each distinct chunk is the one that writes. The slice a host reads or writes equals the data its devices hold, and the write granularity chosen divides the array within the size limit.',
  ['configurations'],
  'All bounded hypercube meshes, host topologies, partition specs and array shapes divisible by them; all chunk-shape requests for bounded shapes and byte budgets.',
  'partitioning_test does not run in this sandbox and samples two topologies; holes or double writes only appear for particular mesh/host/spec combinations.',
  ['t5x/partitioning.py', 't5x/checkpoints.py'],
  [('LocalChunker', 't5x/partitioning.py LocalChunker.get_local_chunk_info'),
   ('chunk shape selection', 't5x/checkpoints.py _choose_chunk_shape')],
  ['LocalChunker.get_local_chunk_info'])

p('C07', 'Orbax-backed checkpointing keeps the same guarantees',
  'Through the Orbax-backed manager, saved state restores exactly, the requested step (also from a directory written by the native format) is the one restored, retention keeps the configured number of newest steps (of best ones when a metric is monitored), and saves land on the configured period.',
  ['histories', 'configurations'],
  'All save/restore histories up to a depth over steps, keep settings and both on-disk formats.',
  'No runnable test touches the manager; correctness is over histories and mixed formats.',
  ['t5x/checkpoints.py', 't5x/utils.py'],
  [('manager interface', 't5x/checkpoints.py OrbaxCheckpointManagerInterface')],
  ['OrbaxCheckpointManagerInterface.save/restore/all_steps'])

p('C08', 'Bounded-memory I/O admits every request and respects its budget',
  'Under every schedule of concurrent array reads or writes that share a byte budget, the requests in flight never exceed the budget (a single request larger than the budget runs alone), every request eventually runs, and all bytes are returned at the end, also when a request fails.',
  ['schedules', 'inputs'],
  'All interleavings of up to four concurrent requests over all small size vectors and budgets, on the real asynchronous primitive under a controlled event loop.',
  'Needs a particular interleaving and size combination; no test exercises it.',
  ['t5x/checkpoints.py'],
  [('byte-counting condition variable', 't5x/checkpoints.py _BytesConditionVariable'),
   ('per-array I/O coroutines', 't5x/checkpoints.py Checkpointer')],
  ['Checkpointer.save under a controlled event loop'])

p('C09', 'Partial restoration assigns exactly what the mapping says',
  'Combining a checkpoint with a target through an assignment map follows the first matching rule in full-name matching, an explicit null keeps the current value, an unmatched name falls back to the same name, and a mapped name that is missing from the checkpoint is an error. Merging and intersecting nested states keep exactly the shared or combined leaves with the documented precedence and never alter their inputs.',
  ['inputs', 'programs'],
  'All pairs of nested states over a bounded key alphabet and depth, and all assignment maps of bounded length over a rule alphabet (exact, regular expression with groups, null, missing), against an independent reference.',
  'state_utils_test checks a few hand-written trees; the guarantees are over all trees, rule orders and overlaps.',
  ['t5x/state_utils.py', 't5x/checkpoints.py', 't5x/utils.py'],
  [('assignment map', 't5x/state_utils.py apply_assignment_map'),
   ('tree merge/intersection', 't5x/state_utils.py merge_state/intersect_state'),
   ('fallback state', 't5x/utils.py, t5x/checkpoints.py')],
  ['apply_assignment_map', 'merge_state', 'intersect_state', 'tensorstore_leaf/flatten_state_dict'])

p('C10', 'Importing a Mesh-TensorFlow checkpoint maps every variable once',
  'Every variable of a legacy T5 checkpoint ends at exactly one place in the converted state with its value unchanged up to the documented layout change, distinct variables never collide, optimizer slots follow their parameter, a mapping that cannot place a variable fails, and missing or mis-shaped targets are reported rather than silently filled. The first matching rule wins and only full-name matches count.',
  ['inputs', 'programs'],
  'All variable name families of the supported architectures with layer counts bounded, all slot kinds, and all bounded rule lists over a small rule alphabet.',
  'checkpoint_importer_test has two cases; name collisions need particular layer/slot combinations.',
  ['t5x/checkpoint_importer.py'],
  [('rule translator', 't5x/checkpoint_importer.py CheckpointTranslator'),
   ('T5 rules', 't5x/checkpoint_importer.py t5_importer'),
   ('state update', 't5x/checkpoint_importer.py update_optimizer/_update_state_dict')],
  ['t5_importer.apply', 'restore_from_t5_checkpoint', 'LazyArray.get'])

p('C11', 'Lazily loaded arrays behave like the array they stand for',
  'A lazy array reports the shape and dtype of what it will load, reads through the synchronous and asynchronous paths give the same value, a dtype change applies to every later read without touching the source or other handles, and nothing is loaded before it is asked for.',
  ['histories', 'inputs'],
  'All operation sequences up to a depth over {astype to each dtype, get, async get, fresh handle, inspect} for each kind of lazy array.',
  'The test reads each kind once; aliasing and caching faults need sequences.',
  ['t5x/checkpoint_importer.py'],
  [('lazy arrays', 't5x/checkpoint_importer.py LazyArray and subclasses')],
  ['LazyArray.get/get_async/astype/dtype/shape'])

# ---------------------------------------------------------------- decoding
p('D01', 'Temperature sampling emits prompt, samples, EOS, then padding',
  'For every model, batch and prompt, each sampled sequence begins with its own prompt, continues with tokens of positive probability under the temperature/top-k/top-p transformed distribution given the true prefix, stops at the first end-of-sequence token after the prompt and is zero afterwards; zero temperature is greedy. Reported log-probabilities are those of the emitted continuation under the (optionally rescaled) model, samples of an item are ordered by them, and items of a batch do not influence each other.',
  ['inputs', 'configurations', 'histories'],
  'All prompts up to a length over a small vocabulary, all next-token table models from a bounded family, all sampler choices (every token at each step is explored by controlling the sampler), for all temperature, top-k, top-p, num-decodes and rescaling settings.',
  'decoding_test compares some fixed rollouts; faults need particular prompt/EOS/length alignments in a batch.',
  ['t5x/decoding.py'],
  [('sampling loop', 't5x/decoding.py temperature_sample/_temperature_sample_single_trial')],
  ['temperature_sample'])

p('D02', 'Prefilled, offset and length-limited decoding equals plain decoding',
  'Starting the decode loop at a nonzero per-item position after a cache prefill gives the same tokens and scores as decoding from the start, and a limit on decode steps truncates each item exactly that many tokens after its own prompt and changes nothing before that point, for any mixture of prompt lengths in the batch.',
  ['inputs', 'configurations'],
  'All pairs of prompt lengths, step limits, hard limits, stop tokens and initial positions within the bound, in mixed batches, against the plain rollout.',
  'Mixed-length batches with limits and offsets are sampled twice in the tests.',
  ['t5x/decoding.py'],
  [('initial index and step limit', 't5x/decoding.py _temperature_sample_single_trial')],
  ['temperature_sample(initial_index=, max_decode_steps=, ...)'])

p('D03', 'Beam search returns the best sequences in order',
  'Beam search returns, for every item, distinct hypotheses in ascending score order, each score being the length-normalized log-probability of the hypothesis it is reported with, equal to what a straightforward beam search of that width would return, and equal to exhaustive search when the beam is as wide as the search space; results of an item do not depend on the rest of the batch. Prompts are preserved and positions after the end-of-sequence token are zero.',
  ['inputs', 'configurations'],
  'All table models from a bounded family (vocabulary, horizon), all prompts, beam widths, length penalties and step limits, against a plain-Python beam search and exhaustive enumeration.',
  'Tests use one or two hand-made score tables; live/finished hand-over errors need particular score orders.',
  ['t5x/decoding.py'],
  [('beam loop', 't5x/decoding.py beam_search'),
   ('brevity penalty, gathers, two-stage top-k', 't5x/decoding.py')],
  ['beam_search', 'top_k_two_stage', 'gather_beams'])

p('D04', 'Top-k and top-p masks select exactly the required set',
  'Top-k keeps exactly the k largest logits up to ties (every kept logit is at least every dropped one and no strictly smaller set qualifies), top-p keeps the smallest set of largest logits whose probability mass reaches p, and both leave kept logits unchanged and replace the rest by the given value. The underlying bit-level searches return the exact threshold for every monotone predicate over the full integer and float range.',
  ['inputs', 'configurations'],
  'All logit vectors over a small value alphabet (ties, infinities, signed zeros, negatives), all k, all p at and around partial sums; all threshold positions at power-of-two and random-free boundary sets of the int32 and float32 ranges.',
  'Five sampled tests; errors are at ties, extremes and boundaries.',
  ['t5x/binary_search.py'],
  [('bit search', 't5x/binary_search.py int32_bsearch/float32_bsearch'),
   ('masks', 't5x/binary_search.py topk_mask/topp_mask')],
  ['topk_mask', 'topp_mask', 'int32_bsearch', 'float32_bsearch'])

p('D05', 'Early-exit sampling emits the same sequences as plain sampling',
  'The early-exit sampler obeys the same prompt, end-of-sequence, padding and log-probability rules as the plain sampler, and the confidences and exit layers it reports are those the model produced for the very token and item they are reported with.',
  ['inputs', 'configurations'],
  'All prompts over a small vocabulary and a bounded family of table models with distinct confidence and exit values per prefix.',
  'No test covers the early-exit decoding path.',
  ['t5x/contrib/calm/decoding.py'],
  [('sampling loop with extras', 't5x/contrib/calm/decoding.py temperature_sample')],
  ['contrib.calm.decoding.temperature_sample'])

# ------------------------------------------------------------------ models
p('M01', 'Incremental decoding computes the same outputs as the full pass',
  'Feeding a sequence one token at a time through the cached decoder, or prefilling any prefix and continuing, gives at every position the same output as one full teacher-forced pass, for every item of a batch with different prefill lengths, and never reads positions that are not yet written.',
  ['inputs', 'configurations', 'histories'],
  'All (length, prefill split) vectors within the bound for each attention implementation and network, over all bounded token contents, comparing with the full forward pass.',
  'layers_test compares selected lengths with identical items; cache index errors need particular splits and mixed batches.',
  ['t5x/examples/t5/layers.py', 't5x/examples/scalable_t5/layers.py', 't5x/examples/decoder_only/layers.py', 't5x/contrib/gpu/t5/layers.py', 't5x/examples/t5/network.py', 't5x/examples/decoder_only/network.py'],
  [('key/value cache', 'examples/*/layers.py MultiHeadDotProductAttention')],
  ['MultiHeadDotProductAttention', 'Transformer.decode', 'DecoderWrapper'])

p('M02', 'Attention sees exactly the permitted positions',
  'A position attends to another only if both hold real tokens, belong to the same packed segment, and, in the decoder, the other is not in the future unless both are in the bidirectional prefix; combined masks are the conjunction and combined biases the sum of the given ones. Consequently packed examples get the same outputs as when run alone, and future or padding tokens never influence an output.',
  ['inputs', 'configurations'],
  'All token, segment and prefix patterns up to a length for every mask builder; all packings of short examples and all single-token perturbations for the networks.',
  'Tests check one or two matrices; leaks need particular segment/prefix/padding combinations.',
  ['t5x/examples/t5/layers.py', 't5x/examples/scalable_t5/layers.py', 't5x/examples/decoder_only/layers.py', 't5x/contrib/gpu/t5/layers.py', 't5x/examples/t5/network.py'],
  [('mask builders', 'examples/*/layers.py make_decoder_mask/make_attention_mask/make_causal_mask/combine_masks/combine_biases')],
  ['make_decoder_mask', 'make_attention_mask', 'combine_masks', 'Transformer.__call__'])

p('M03', 'Relative position buckets partition distances consistently',
  'Every relative distance falls in one valid bucket; buckets are exact for near distances, monotone in distance, capped at the maximum distance, disjoint by direction when bidirectional and collapse the future when causal; the bias at a single decode position equals the matching row of the full bias.',
  ['inputs', 'configurations'],
  'All distances in a bounded range for all bucket counts, maximum distances and directions; all query positions for the incremental case.',
  'The tests check one configuration; off-by-one errors appear at bucket boundaries.',
  ['t5x/examples/t5/layers.py', 't5x/examples/scalable_t5/layers.py', 't5x/examples/decoder_only/layers.py', 't5x/contrib/gpu/t5/layers.py'],
  [('bucket function', 'examples/*/layers.py RelativePositionBiases')],
  ['RelativePositionBiases.__call__'])

p('M04', 'Prediction and scoring use the right prompt, cache and weights',
  'Generating with a model returns for every batch item a continuation of that item\'s own prompt computed from that item\'s own inputs, and scoring returns the sum over weighted target positions of the model\'s own log-probability, independent of padding, batch composition and the loss regularizers. Conflicting sampling arguments are refused and caller-supplied options are not modified.',
  ['inputs', 'configurations'],
  'All batches over a bounded alphabet of inputs/targets/prefix masks with stub networks whose logits encode their inputs, for both encoder-decoder and decoder-only models, all option combinations.',
  'models_test does not run here and samples a few batches.',
  ['t5x/models.py'],
  [('predict_batch_with_aux / score_batch / cache prefill', 't5x/models.py EncoderDecoderModel, DecoderOnlyModel')],
  ['BaseTransformerModel.predict_batch', 'score_batch'])

p('M05', 'Cross-entropy and its gradient equal their definition',
  'The token loss equals the negative log-likelihood of the (smoothed) target distribution, minus its entropy floor, plus the configured penalty on the log-normalizer, for any logits finite in float32; its gradient is the derivative of that same function including the penalty; weights scale and zero weights remove positions from loss, penalty and weight sum alike.',
  ['inputs', 'configurations'],
  'All logit matrices over a value grid (including large magnitudes), targets, weights, smoothing and penalty coefficients; gradient compared with an independent closed form in float64.',
  'losses_test uses few matrices; the hand-written gradient must agree for all.',
  ['t5x/losses.py'],
  [('custom-gradient loss', 't5x/losses.py cross_entropy_with_logits'),
   ('weighted loss', 't5x/losses.py compute_weighted_cross_entropy')],
  ['cross_entropy_with_logits', 'compute_weighted_cross_entropy'])

p('M06', 'Loss weights and normalization follow the configured convention',
  'For each normalization convention the returned normalizer and per-token weights are the documented function of the batch: padding has weight zero, per-segment weights of every packed example sum to one (zero for padding), and averages over targets, batch or sequences use the counts named. The result is invariant under how examples are packed into rows.',
  ['inputs', 'configurations'],
  'All target / weight / segment layouts up to a bounded size for all conventions; all packings of the same examples.',
  'losses_test checks one batch per convention.',
  ['t5x/losses.py'],
  [('convention dispatch', 't5x/losses.py get_loss_normalizing_factor_and_weights'),
   ('segment weight', 't5x/losses.py')],
  ['get_loss_normalizing_factor_and_weights'])

p('M07', 'Metric accumulation does not depend on how batches are grouped',
  'Accumulating metrics over any partition of the same data into batches, steps and merge orders gives the same totals, averages, per-step averages, time rates and steps-per-time, where durations and step counts enter once; reading a rate before its duration is set is refused.',
  ['histories', 'inputs'],
  'All merge trees and orders of up to five partial results with all small values, durations and step counts, for every metric type.',
  'metrics_test merges one pair at a time.',
  ['t5x/metrics.py', 't5x/models.py'],
  [('merge/compute', 't5x/metrics.py Sum, AveragePerStep, TimeRate, Time, StepsPerTime')],
  ['clu Metric.merge', 'compute', 'set_time_metrics/duration'])

p('M08', 'Building blocks compute their definition for every shape and axis',
  'Dense, embedding, normalization and feed-forward layers give the value of their mathematical definition for every admissible axis selection, feature shape, dtype and option, with parameters of the documented shape, and their parameter axis annotations name every dimension.',
  ['inputs', 'configurations'],
  'All bounded input ranks, contraction axes, feature tuples, activations and flags for each architecture\'s layers.',
  'layers_test checks individual hand-picked cases.',
  ['t5x/examples/t5/layers.py', 't5x/examples/scalable_t5/layers.py', 't5x/examples/decoder_only/layers.py', 't5x/contrib/gpu/t5/layers.py'],
  [('layers', 'examples/*/layers.py DenseGeneral, Embed, LayerNorm, MlpBlock')],
  ['DenseGeneral', 'Embed', 'LayerNorm', 'MlpBlock'])

p('M09', 'Layer stacking, rematerialization and library choice do not change the network',
  'For the same weights the scanned, unrolled and rematerialized forms of the scalable network give the same outputs, gradients, dropout and decoding caches for every combination of stacking axis, checkpointing policy, depth and embedding option; the T5, scalable and GPU networks with the same weights agree; and every parameter and cache entry has an axis annotation naming each of its dimensions.',
  ['configurations', 'inputs'],
  'All combinations of scan, stacking axis, rematerialization policy, depth and options, each on batches with padding, packing and dropout, in full, incremental and gradient computations.',
  'network_test runs one configuration; combining options such as rematerialization with unrolled layers is never run.',
  ['t5x/examples/scalable_t5/network.py', 't5x/examples/t5/network.py', 't5x/contrib/gpu/t5/network.py', 't5x/examples/decoder_only/network.py'],
  [('scan and remat of layers', 't5x/examples/scalable_t5/network.py Encoder, Decoder')],
  ['Transformer.__call__', 'Transformer.decode'])

p('M10', 'Early-exit decoding computes exactly the layers it reports',
  'With early exits enabled, each decoded token is the one that the network gives when it is run up to the first allowed exit at which the least confidence of the batch reaches the threshold (adjusted by the decoded position if asked for) and no exit comes before the minimum; the reported exit layers and confidences are those of each step; the layers that were skipped attend later to the state of the exit layer, or in the oracle setting to what they would have computed, and each layer takes every position once; the oracle variants stop at the first layer that agrees with the top or use its tokens. Decoding without early exits equals the plain model, the best decode is the last of all decodes. The training loss is the documented weighted average of the losses of the layers, or of the balanced or geometric losses of the exit classifiers, with accuracies per layer.',
  ['configurations', 'inputs'],
  'All bounded numbers of layers, exits, intervals and minimum exits, all confidence measures and oracle variants, at every threshold of a grid and for every batch of a set; all layers, weights, aggregations and normalizers for the losses.',
  'There is no test of the early-exit model; mistakes show only some tokens after an exit, or with exit intervals above one.',
  ['t5x/contrib/calm/models.py'],
  [('early exit step', 't5x/contrib/calm/models.py EncoderDecoderModel._compute_logits_from_slice_early_exit'),
   ('losses', 't5x/contrib/calm/models.py EncoderDecoderModel.loss_fn')],
  ['contrib.calm.models.EncoderDecoderModel'])

# ------------------------------------------------------------ partitioning
p('P01', 'Each host loads its own share of the global batch',
  'For every mesh and host topology, hosts agree on the number of data shards, every shard is assigned, hosts share a shard only if their devices hold the same batch slice, exactly one host per shard is the first to write it, shards cover the global batch, and a batch size or shape that cannot be split evenly is rejected. The default mesh uses every device exactly once with the requested model-parallel size, and an explicit submesh is a tile of the hardware mesh.',
  ['configurations'],
  'All bounded device/host topologies and model-parallel sub-meshes (simulated hosts), and all batch sizes within a bound.',
  'Multi-host layouts cannot occur in a unit test on one host; partitioning_test mocks two.',
  ['t5x/partitioning.py'],
  [('data layout', 't5x/partitioning.py BasePartitioner.get_data_layout'),
   ('mesh construction', 't5x/partitioning.py default_mesh/get_mesh')],
  ['get_data_layout', 'default_mesh', 'LocalChunker'])

p('P02', 'Parameters are sharded as their logical axes and the rules say',
  'Each parameter dimension is placed on the mesh axis that the first applicable rule gives for its logical axis name, no mesh axis is used twice within one parameter, optimizer slots and mutable collections follow their parameter, scalars and the step are replicated, and an axis list that does not fit its parameter is refused. Name-based overrides apply to exactly the parameters they fully match, first match first. The summary written with a run lists every parameter and collection with its size, axis names and placement.',
  ['configurations', 'programs'],
  'All bounded assignments of logical axis names to parameter dimensions, for every rule configuration (activation/parameter partitioning dimensions, additional rules) and optimizer family.',
  'partitioning_test does not run here; it samples one tree.',
  ['t5x/partitioning.py', 't5x/train_state.py', 't5x/utils.py', 't5x/adafactor.py', 't5x/optimizers.py'],
  [('rules', 't5x/partitioning.py standard_logical_axis_rules'),
   ('spec derivation', 't5x/partitioning.py PjitPartitioner.get_mesh_axes'),
   ('overrides', 't5x/utils.py override_params_axes_names'), ('summary', 't5x/utils.py log_model_info')],
  ['standard_logical_axis_rules', 'PjitPartitioner.get_mesh_axes'])

p('P03', 'Partitioned computation equals unpartitioned computation',
  'Running the same function through the partitioner on any supported mesh returns the same values as running it unpartitioned, inputs are moved and outputs placed as specified, and the ahead-of-time compiled form equals the traced one.',
  ['configurations', 'inputs'],
  'All factorizations of eight simulated devices into data and model axes, all in/out partition specs of bounded rank.',
  'Tests run on a single device.',
  ['t5x/partitioning.py'],
  [('pjit wrapper', 't5x/partitioning.py PjitPartitioner.partition/compile/move_params_to_devices')],
  ['PjitPartitioner.partition'])

p('P04', 'Expert meshes and layouts cover all devices and data once',
  'For every topology the expert mesh uses each device once, the expert axis has the largest admissible size not above the requested number of expert partitions, batch shards over the combined data and expert axes form a bijection with the shard ids, and expert parameters follow the expert axis while the rest stay replicated over it.',
  ['configurations'],
  'All bounded device counts, host topologies, expert-partition and model-partition requests and rule options.',
  'The mixture-of-experts tests do not run in this sandbox and sample few topologies.',
  ['t5x/contrib/moe/partitioning.py'],
  [('mesh and layout', 't5x/contrib/moe/partitioning.py default_moe_mesh, MoePjitPartitioner.get_data_layout'),
   ('rules', 't5x/contrib/moe/partitioning.py standard_logical_axis_rules')],
  ['default_moe_mesh', 'MoePjitPartitioner'])

p('P05', 'Expert-specific training steps touch only expert parameters',
  'Gradient scaling multiplies exactly the leaves whose full name matches the expert pattern and leaves structure and other leaves untouched, named tree mapping pairs every leaf with its own path, auxiliary losses are averaged over layers and added to the cross-entropy with their coefficients, and upcycling a dense checkpoint gives every expert the dense weights and leaves other parameters as they were.',
  ['inputs', 'configurations'],
  'All bounded nested trees and name patterns, all metric sets of bounded size, all expert counts and layer layouts within the bound.',
  'Tests use one tree each and do not run in this sandbox.',
  ['t5x/contrib/moe/training_utils.py', 't5x/contrib/moe/models.py', 't5x/contrib/moe/checkpoints.py', 't5x/contrib/moe/trainer.py'],
  [('scaling, naming', 't5x/contrib/moe/training_utils.py'),
   ('aux losses', 't5x/contrib/moe/models.py')],
  ['scale_sharded_grads', 'tree_map_with_names', 'MoeEncoderDecoderModel.loss_fn'])

# -------------------------------------------------------------- optimizers
p('O01', 'Optimizer state survives serialization for every optimizer chain',
  'For every wrapped optimizer, converting the state to its serialized form and back at any point of training restores it exactly, training continues identically afterwards, missing entries are rejected rather than defaulted and surplus ones never alter what is restored, each update advances the step by one and equals the underlying transformation, and every slot gets a sharding annotation of its own rank.',
  ['histories', 'configurations', 'programs'],
  'All chains of bounded length over the supported transformation alphabet, all interleavings of update and save/restore up to a depth, all single-entry deletions of the serialized form.',
  'optimizers_test does not run here, and each test covers one optimizer.',
  ['t5x/optimizers.py'],
  [('state dict conversion', 't5x/optimizers.py OptaxWrapper.state_dict/restore_state'),
   ('axis derivation', 't5x/optimizers.py OptaxWrapper.derive_logical_axes')],
  ['OptimizerDef.apply_gradient', 'Optimizer.state_dict/restore_state'])

p('O02', 'A multi-optimizer updates each parameter by exactly one optimizer',
  'With parameters divided among optimizers, each matched parameter evolves exactly as if its own optimizer alone trained it with its own hyperparameters, unmatched parameters never change, and overlapping claims are refused; serialization round-trips.',
  ['configurations', 'histories'],
  'All partitions (and overlaps) of a bounded parameter set among up to three optimizers, training histories up to a depth.',
  'No runnable test; depends on the partition.',
  ['t5x/optimizers.py'],
  [('disjoint traversals', 't5x/optimizers.py MultiOptimizer')],
  ['MultiOptimizer.apply_gradient/init_state'])

p('O03', 'The factored optimizer performs the documented update',
  'Every update equals the documented rule for decay, factored or full second moments, update clipping, parameter scaling, momentum and weight decay, for any grouping of dimensions; factoring uses the chosen dimensions and stores only row and column statistics; when so configured, an update that would be NaN leaves parameter and statistics as they were; training proceeds the same after save and restore.',
  ['inputs', 'configurations', 'histories'],
  'All bounded shapes and dimension rules, all boolean and small-grid hyperparameter combinations, multi-step gradient histories over a value alphabet, compared with an independent float64 reference.',
  'adafactor_test does not run here and fixes most hyperparameters.',
  ['t5x/adafactor.py'],
  [('update', 't5x/adafactor.py Adafactor.apply_param_gradient/init_param_state')],
  ['Adafactor.apply_gradient', 'Adafactor.init_state'])

p('O04', 'Factoring rules resolve deterministically and completely',
  'Every parameter takes the first rule whose pattern matches its name, every logical axis list is mapped to the documented dimension roles, parameters without a rule fall back to the rank heuristic or are refused, state of the shape of a parameter is annotated with its axes, and factored statistics are left unsharded.',
  ['configurations', 'inputs'],
  'All rule lists of bounded length over a pattern alphabet and names, all axis-role tuples up to rank four, all shapes from a small set.',
  'Tests check a handful of rules.',
  ['t5x/adafactor.py'],
  [('rule map', 't5x/adafactor.py HParamMap/standard_logical_factor_rules'),
   ('axes', 't5x/adafactor.py derive_logical_axes/set_param_axes')],
  ['HParamMap', 'Adafactor.derive_logical_axes'])

# ---------------------------------------------------------------- training
p('T01', 'Train state round-trips through its serialized form',
  'For every parameter tree and set of mutable collections, creating, serializing and restoring a train state is lossless; parameters, optimizer state, step and mutable collections never mix; replacing one part leaves the others unchanged; and its axis description has the structure of the state with every leaf annotated.',
  ['inputs', 'histories'],
  'All bounded parameter trees and mutable-collection layouts, all sequences of {apply gradient, replace part, serialize+restore} up to a depth.',
  'train_state_test does not run here and checks examples.',
  ['t5x/train_state.py'],
  [('state classes', 't5x/train_state.py FlaxOptimTrainState, InferenceState')],
  ['FlaxOptimTrainState.state_dict/restore_state/apply_gradient', 'InferenceState'])

p('T02', 'Gradient accumulation equals the full-batch step',
  'Splitting a batch into any admissible number of microbatches yields the same summed gradients, metrics and updated state as one full-batch step, an indivisible split is refused, and per-step randomness depends only on the base seed and the step, so a restarted run repeats the uninterrupted one. What a trainer reports (metrics, learning rate, and the results of every evaluation set, each with its own batch shapes and types, compiled beforehand or not) is that of exactly the steps and batches it covers.',
  ['inputs', 'configurations', 'histories'],
  'All batch sizes and divisors within a bound, all batches over a small alphabet with exactly representable values, all split points of a run into restarted segments.',
  'trainer_test does not run here and uses one size.',
  ['t5x/trainer.py'],
  [('microbatch loop', 't5x/trainer.py accumulate_grads_microbatched'),
   ('per-step rng', 't5x/trainer.py BaseTrainer')],
  ['accumulate_grads_microbatched', 'Trainer.train'])

p('T03', 'Metric reporting loses nothing and keeps order under concurrency',
  'Under every schedule of the training thread and the background summary workers, each step\'s metrics are written exactly once with the step they belong to, in step order per writer, a failure in a background worker reaches the training thread, and closing waits for pending writes; the trainer never deadlocks on its locks.',
  ['schedules', 'histories'],
  'All interleavings, up to a bound on deviations from the default schedule, of the real trainer metric code with its worker threads under a controlled scheduler.',
  'Tests run one natural schedule; a lost or swapped write needs a particular preemption.',
  ['t5x/trainer.py'],
  [('metric manager and worker pools', 't5x/trainer.py MetricsManager, BaseTrainer')],
  ['MetricsManager.write_metrics_summary/write_scalar', 'clu metric writer calls'])

p('T04', 'The training loop checkpoints, evaluates and stops exactly on schedule',
  'For every configuration of total steps and periods, the run saves checkpoints, evaluates and runs scheduled actions exactly at the configured steps, executes each training step once in order, ends with a final checkpoint, and a run resumed from any of its checkpoints performs exactly the remaining steps. Periods that cannot be aligned are rejected before any training.',
  ['configurations', 'histories'],
  'All small values of start step, total steps, and evaluation, checkpoint and garbage-collection periods, and all stop points, with the real loop over stand-in model and trainer.',
  'No runnable test drives the loop; alignment faults need particular period combinations.',
  ['t5x/train.py', 't5x/trainer.py'],
  [('loop', 't5x/train.py train')],
  ['train.train with recording trainer/checkpoint manager'])

p('T05', 'Learning-rate schedules evaluate their factor expression everywhere',
  'For every combination of factors and positive warm-up, decay and cycle lengths, the schedule at each step equals the product of its documented factors (constant, warm-ups, inverse-square-root decays, step decay, cosine, linear decay), is finite and non-negative from step zero on, never below the minimum, and continuous where warm-up hands over; unknown factors are refused.',
  ['inputs', 'configurations'],
  'All factor subsets in all orders up to a length, all steps in a range covering each boundary, a grid of hyperparameters.',
  'utils_test does not run here and checks a few points.',
  ['t5x/utils.py'],
  [('factor interpreter', 't5x/utils.py create_learning_rate_scheduler')],
  ['create_learning_rate_scheduler'])

p('T06', 'Training stops when and only when a stop condition is met',
  'Early stopping triggers exactly when the monitored value has not improved by more than the required margin from one value to the next over the last `patience` values, in the configured direction; missing or irrelevant metrics never trigger it, and the non-finite-loss guard triggers exactly on non-finite monitored values; once early stopping triggered, further values do not revoke it, and the request of any one action stops the training on every process.',
  ['histories', 'configurations'],
  'All metric histories up to a depth over a value alphabet (improving, equal, worsening, missing, foreign, NaN; for the guard also infinite) for all patience (at least two), margin and mode settings.',
  'trainer_test samples two histories and does not run here.',
  ['t5x/trainer.py'],
  [('actions', 't5x/trainer.py EarlyStoppingAction, TerminateOnNanAction')],
  ['BaseAction.run'])

p('T07', 'Training input feeds every example once and resumes where it stopped',
  'The shards of a training dataset partition its examples: over each epoch every example is delivered to exactly one shard, exactly once (but for the last incomplete batch), in batches of the configured size divided by the number of shards, identically for the same seed; a batch size that does not divide is refused. The datasets for the training evaluation cover every task that has the split and the mixture itself, with exactly the requested number of batches, split among the shards without overlap. The prepared iterator places each global batch on the devices of any mesh with every row on exactly the devices that own it, peeking consumes nothing, and an iterator restored from a saved position continues with exactly the next batch. Vocabularies that are ambiguous or differ from those of the model are refused.',
  ['inputs', 'histories', 'configurations'],
  'All small dataset sizes x batch sizes x shards x epochs with and without shuffling from the view of every shard; all tasks and mixtures; all operation sequences (next, peek, save, restore, reset) to a depth; all meshes of eight devices in one process and on two and four real jax processes; all vocabulary combinations.',
  'Unit tests look at single shards and do not run the multi-process path; disjointness over all shards and histories of save and restore are not sampled.',
  ['t5x/utils.py'],
  [('sharding of datasets', 't5x/utils.py get_dataset'), ('training evaluation', 't5x/utils.py get_training_eval_datasets'),
   ('placement and resumption', 't5x/utils.py prepare_train_iter'), ('vocabularies', 't5x/utils.py get_vocabulary')],
  ['get_dataset per shard', 'prepare_train_iter'])

p('T08', 'Interrupted training ends where uninterrupted training ends',
  'A training run whose checkpoints include the state of the dataset, that is killed at any point (between steps or during any file operation of any checkpoint) or preempted, any number of times, and started again with the same arguments, ends with exactly the train state (parameters, optimizer state, mutable variables, step) of an uninterrupted run: no batch is skipped or repeated, every step uses the same random key and learning rate, and the configuration for starting from another checkpoint (with or without renaming and with or without its dataset) acts only on the very first start and leaves the dataset alone unless asked. Every checkpoint written holds the state of exactly its step. Starting a finished training again changes nothing. This holds for both checkpoint systems and does not depend on when checkpoints, summaries or evaluations happen.',
  ['crash_points', 'histories', 'configurations'],
  'All file-system states between two consecutive mutating libc calls of real training runs, all batch positions at which the process can die (and pairs of them), all calls of the training step at which it can be preempted, each continued to the end, for plans over both checkpoint systems, fresh, pretrained and remapped starts, retention, mutables, microbatches and evaluation.',
  'Tests of the training loop mock the trainer and the checkpoints, or train once without interruption; the property is about the combination of all parts at every crash point.',
  ['t5x/train.py', 't5x/utils.py', 't5x/checkpoints.py', 't5x/trainer.py', 't5x/train_state.py'],
  [('choice of the start and resumption', 't5x/train.py train'), ('restoring', 't5x/utils.py create_checkpoint_manager_and_restore'),
   ('saving and restoring train state and dataset', 't5x/checkpoints.py Checkpointer, OrbaxCheckpointManagerInterface'),
   ('per-step randomness', 't5x/trainer.py BaseTrainer')],
  ['result of train.train', 'checkpoints in the model directory'])

# --------------------------------------------------------------- inference
p('I01', 'Batch inference writes every example exactly once across crashes',
  'Whatever the point at which the process dies and however often it is restarted, once inference reports completion the output contains one record per input example, in input order, with the inference belonging to that example, and completed work is never destroyed. A run after completion changes nothing. A write that fails makes inference fail, and nothing is reported as complete that is not.',
  ['crash_points', 'histories'],
  'All file-system states between two consecutive mutating operations of inference over all small dataset sizes, batch sizes and checkpoint periods, in both restart modes, each followed by a restart (and a second crash at the thorough tier).',
  'There is no infer test in the runnable suite; crash points between file operations are unreachable by a plain test.',
  ['t5x/infer.py'],
  [('chunk files, iterator checkpoint, completion markers, merge', 't5x/infer.py infer')],
  ['output JSONL file', 'completion marker'])

p('I02', 'Continuous evaluation covers each checkpoint once across restarts',
  'Evaluating all checkpoints processes each existing checkpoint exactly once in ascending step order, a restart after a crash at any point re-evaluates at most the one in flight and skips none, and the checkpoint list chosen by each restore mode is exactly the one configured.',
  ['crash_points', 'histories', 'configurations'],
  'All checkpoint sets over a bounded step alphabet, all crash points in the evaluation history, all restore modes.',
  'No runnable test; crash points lie between evaluation and record.',
  ['t5x/eval.py', 't5x/utils.py'],
  [('evaluated-checkpoint record', 't5x/eval.py evaluate'),],
  ['eval.evaluate with stand-in evaluator'])

p('I03', 'Batched inference returns results in input order, padding removed',
  'Inference over a dataset returns exactly one result per input example, each paired with its own index and computed from that example, independent of batch size, padding of the last batch and the number of hosts or shards, with auxiliary values aligned to the same examples.',
  ['inputs', 'configurations'],
  'All dataset sizes and batch sizes within a bound, with and without auxiliary outputs and random keys, on all simulated device meshes.',
  'utils_test does not run here; misalignment needs particular remainders.',
  ['t5x/utils.py'],
  [('inference function builder', 't5x/utils.py get_infer_fn')],
  ['get_infer_fn'])

p('I04', 'Listed checkpoint steps are planned exactly, once each',
  'Planning the explicitly listed checkpoint steps inside a training run is exact: the next stop is the smallest listed step after the current one that lies after the first step, within the chunk and the epoch, and does not coincide with a periodic checkpoint; nothing is due otherwise and the chunk is left as it was; looking up the first due entry never skips a due step; and a whole run stops at every listed step of its range once, in order, whatever the chunking, epochs, restarts and periods.',
  ['configurations', 'histories'],
  'All sorted step lists, periods, chunk lengths, epoch lengths, first steps and positions in a bounded grid, as single calls and as whole runs.',
  'Off-by-one errors occur at multiples of the period, at chunk and epoch boundaries and at the end of training.',
  ['t5x/utils.py', 't5x/train.py'],
  [('step planning', 't5x/utils.py find_first_checkpoint_step/find_next_checkpoint_step')],
  ['find_next_checkpoint_step', 'find_first_checkpoint_step'])

p('I05', 'An interactive session computes what the batch programs compute',
  'An InteractiveModel behaves as the batch programs do on the same data: train_step applies exactly one optimiser step on the first batch of the given examples (fewer examples than a batch are refused) and saves a checkpoint, of which the newest five are kept; a new session on the same directory continues from the newest checkpoint, or from the given one (a specific step or the latest), with parameters of the asked type; predict and score return one result per given example, in the order given, computed with the current parameters, for every number of examples and every documented option; evaluate calls each metric function exactly once with the targets and the predictions, auxiliary values or scores of exactly the given examples in the form its signature asks for; train_loop performs the asked number of steps, repeating the given batches as needed, with inference and evaluation every period; and the batches and tasks made from examples hold exactly these examples.',
  ['histories', 'configurations', 'inputs'],
  'All sequences up to a depth of the operations of a session (train, predict, score, evaluate, close and reopen in every way) and all numbers of examples up to two batches, compared with a reference that runs the model directly.',
  'The unit tests call each method once on one batch in a fresh directory; the defects found appear with the second session, the second batch count or the second metric kind.',
  ['t5x/interactive_model.py'],
  [('interactive session', 't5x/interactive_model.py InteractiveModel'),
   ('training steps', 't5x/interactive_model.py train_step/train_loop'),
   ('batch inference', 't5x/interactive_model.py infer_with_preprocessors')],
  ['InteractiveModel', 'get_batches_from_seqio', 'get_dataset_from_natural_text_examples'])

p('I06', 'Inference records hold exactly what was asked for',
  'Every output record describes its own example: the input fields asked for (the pretokenized ones by default, all, or the named ones with their pretokenized form), the prediction decoded with the output vocabulary, its ids up to the first padding if asked for, the score, and the auxiliary values of exactly that example, whatever their type; contradictory requests are refused. There is one output per task and shard, the shards partition the examples, records are in input order for any number of examples per chunk, and no two examples of a shard are given the same random numbers. Merging concatenates exactly the chunks of that output in order and refuses when one is missing. A task made from TFExample files holds exactly the examples of these files.',
  ['inputs', 'configurations'],
  'All combinations of modes, field selections, ids and auxiliary value types; all sets of chunk files up to a bound; whole runs over a grid of example counts, batch sizes, chunk sizes, shards, vocabularies; tasks from all small sets of files.',
  'There is no infer test in the runnable suite; mistakes show only with more than ten examples per chunk, a padded row in an unusual place, or vocabularies that differ.',
  ['t5x/infer.py'],
  [('records', 't5x/infer.py write_inferences_to_file'), ('merging', 't5x/infer.py merge_chunks_to_file'),
   ('tasks from files', 't5x/infer.py create_task_from_tfexample_file')],
  ['write_inferences_to_file', 'merge_chunks_to_file', 'create_task_from_tfexample_file', 'infer'])

# ----------------------------------------------------------- exported models
p('X01', 'An exported model computes what the live model computes',
  'A model saved for serving and loaded again returns, for every batch of texts or token arrays of the allowed sizes, exactly the outputs of the live model with the restored parameters on the features which the training side defines for these examples (tokenized, cut to the feature length with the end mark kept where asked, padded, split into inputs and targets, in the smallest bucket that fits), with or without a partitioner, request batching, compiled model function or per-request decoder parameters; the exported parameters have the type that the restore configuration asks for, or the saved one; texts are decoded up to the end mark and named outputs keep their order; the preprocessor made from a task computes the features of that task, with missing fields empty; the warmup requests in the export have the configured examples, batch sizes, names and types and are accepted by the exported model, and generated examples have exactly the requested number of tokens; output directories without a version and output names that do not fit are refused.',
  ['inputs', 'configurations'],
  'Every batch of a set of texts and token arrays, over all lengths, end marks, separators and buckets; every export configuration of the grid saved and loaded again.',
  'There is no test of the export code in the runnable suite (TensorFlow Serving is missing); mistakes show only for batches of several examples, texts that are exactly as long as the limit, or unusual configurations.',
  ['t5x/export_lib.py'],
  [('preprocessors', 't5x/export_lib.py create_preprocessor, create_decoder_preprocessor, PreprocessorFnFromTask'),
   ('the exported module', 't5x/export_lib.py save, ExportableModule, create_inference_function, load_params_from_checkpoint'),
   ('outputs and requests', 't5x/export_lib.py create_postprocessor, write_warmup_examples')],
  ['save', 'create_preprocessor', 'create_inference_function', 'load_params_from_checkpoint', 'write_warmup_examples'])

# ----------------------------------------------------------- configuration
p('G01', 'Command-line configuration reaches the program faithfully',
  'Each dotted command-line assignment becomes the one binding with the same name and value, split only at the first equals sign, with every other argument and the relative order kept; an assignment without an equals sign is refused; the entry point accepts gin and Fiddle forms in any order; later files and bindings override earlier ones and search paths are tried in order; conflicting configuration sources and configurations of another function are refused; building never runs the program and the configured mode starts exactly its own entry point (or nothing in a dry run); the configuration recorded by the first process reproduces the run; list, sum and boolean helpers return what they name.',
  ['inputs', 'configurations'],
  'All argument lists up to a bounded length over an alphabet of argument shapes, all bounded value strings over a special-character alphabet, every product of configuration sources, and every history of files and bindings.',
  'gin_utils_test checks one list.',
  ['t5x/gin_utils.py', 't5x/config_utils.py', 't5x/main.py'],
  [('argument rewriting', 't5x/gin_utils.py rewrite_gin_args'), ('fiddle', 't5x/config_utils.py config_with_fiddle, direct_summarize_fiddle_config'), ('dispatch', 't5x/main.py main')],
  ['rewrite_gin_args', 'config_utils.run', 'parse_gin_flags', 'summarize_gin_config'])

p('G02', 'Garbage collection is suspended only during marked imports',
  'Importing a module under the collection-suspending helper runs with collection off and leaves the collector exactly as before afterwards, for every nesting, repetition, prior collector state and failing import, and ordinary imports are unaffected.',
  ['histories', 'fault_sequences'],
  'All nestings and sequences up to a depth of marked/unmarked/failing imports, from both initial collector states.',
  'Three sampled tests; restoration faults need nested or failing imports.',
  ['t5x/disable_gc_during_import.py'],
  [('import hook', 't5x/disable_gc_during_import.py')],
  ['gc.isenabled', 'builtins.__import__'])

if __name__ == '__main__':
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
      assert len(x['title']) <= 80, (x['id'], len(x['title']))
      f.write(json.dumps(x) + '\n')
  print(len(P), 'properties')
