From 68b5f4a742fbb2eacbf9060bca8ff354d05d49b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 01/53] fix: a dynamic topp of zero no longer masks every logit

With a traced topp of 0.0 top-p masking was always applied and excluded every
token, so sampling became uniform over the vocabulary.
---
 t5x/contrib/calm/decoding.py | 7 ++++++-
 t5x/decoding.py              | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index 93376c1..59497fa 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -536,7 +536,12 @@ def _temperature_sample_single_trial(
       # When topp is dynamic, we always use it since we cannot check
       # non-zeroness (but it will have no effect if topp is 0.0).
       if _is_tracer(topp) or topp:
-        scaled_logits = binary_search.topp_mask(scaled_logits, topp, NEG_INF)  # pytype: disable=wrong-arg-types  # jax-ndarray
+        topp_logits = binary_search.topp_mask(scaled_logits, topp, NEG_INF)  # pytype: disable=wrong-arg-types  # jax-ndarray
+        scaled_logits = jnp.where(
+            jnp.expand_dims(jnp.asarray(topp) > 0, axis=-1),
+            topp_logits,
+            scaled_logits,
+        )
 
       # [batch]
       next_token = random.categorical(rng1, scaled_logits).astype(jnp.int32)
diff --git a/t5x/decoding.py b/t5x/decoding.py
index fe58af5..b01aed4 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -550,7 +550,12 @@ def _temperature_sample_single_trial(
       # When topp is dynamic, we always use it since we cannot check
       # non-zeroness (but it will have no effect if topp is 0.0).
       if _is_tracer(topp) or topp:
-        scaled_logits = binary_search.topp_mask(scaled_logits, topp, NEG_INF)  # pytype: disable=wrong-arg-types  # jax-ndarray
+        topp_logits = binary_search.topp_mask(scaled_logits, topp, NEG_INF)  # pytype: disable=wrong-arg-types  # jax-ndarray
+        scaled_logits = jnp.where(
+            jnp.expand_dims(jnp.asarray(topp) > 0, axis=-1),
+            topp_logits,
+            scaled_logits,
+        )
 
       # [batch]
       next_token = random.categorical(rng1, scaled_logits).astype(jnp.int32)
-- 
2.43.0


From e306d7c81cdfcda49e233dcb13164c5bdcf62018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 02/53] fix: per-item temperatures no longer share one sampling
 key

Every batch item and every decode drew the same noise, so with num_decodes > 1
all samples of an item were copies of each other.
---
 t5x/decoding.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index b01aed4..395a6af 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -538,7 +538,7 @@ def _temperature_sample_single_trial(
     if logit_callback_fn is not None:
       logits = logit_callback_fn(logits, state)
 
-    def sample_logits_with_nonzero_temperature(logits, temperature):
+    def sample_logits_with_nonzero_temperature(logits, temperature, rng):
       scaled_logits = logits / jnp.maximum(temperature, MIN_TEMPERATURE)
       if _is_tracer(topk) or topk:
         scaled_logits = jax.lax.cond(
@@ -558,7 +558,7 @@ def _temperature_sample_single_trial(
         )
 
       # [batch]
-      next_token = random.categorical(rng1, scaled_logits).astype(jnp.int32)
+      next_token = random.categorical(rng, scaled_logits).astype(jnp.int32)
 
       # log probability of the current token conditioned on the previously
       # sampled and prefix tokens.
@@ -577,7 +577,7 @@ def _temperature_sample_single_trial(
 
       return (next_token, next_log_prob)
 
-    def sample_logits_with_zero_temperature(logits, temperature):  # pylint: disable=unused-argument
+    def sample_logits_with_zero_temperature(logits, temperature, rng):  # pylint: disable=unused-argument
       # For zero temperature, we always want the greedy output, regardless
       # of the values of topk and topp.
 
@@ -600,7 +600,7 @@ def _temperature_sample_single_trial(
     if len(temperature.shape) == 1:
       # Each batch item can have different temperatures.
       def map_logits_with_different_temperatures(
-          logits_batch_item, temperature_batch_item
+          logits_batch_item, temperature_batch_item, rng_batch_item
       ):
         return lax.cond(
             temperature_batch_item > MIN_TEMPERATURE,
@@ -608,11 +608,17 @@ def _temperature_sample_single_trial(
             sample_logits_with_zero_temperature,
             jnp.expand_dims(logits_batch_item, axis=0),
             temperature_batch_item,
+            rng_batch_item,
         )
 
       (next_token, next_log_prob) = jax.vmap(
           map_logits_with_different_temperatures
-      )(logits, jnp.repeat(temperature, num_decodes))
+      )(
+          logits,
+          jnp.repeat(temperature, num_decodes),
+          # Each batch item draws its own sample.
+          random.split(rng1, logits.shape[0]),
+      )
       next_token = jnp.squeeze(next_token, axis=-1)
       next_log_prob = jnp.squeeze(next_log_prob, axis=-1)
     else:
@@ -623,6 +629,7 @@ def _temperature_sample_single_trial(
           sample_logits_with_zero_temperature,
           logits,
           temperature,
+          rng1,
       )
 
     # When different batch elements are at different points in the loop counter,
-- 
2.43.0


From 4c76aab2bceef6450e712d1651753d038ad6db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 03/53] fix: beam search generates past a prompt that fills the
 inputs

The forced prompt token was looked up past the end of the inputs, where the
index clamps, so a full-length prompt had its last token repeated (and every
position beyond the inputs when max_decode_len is longer).
---
 t5x/decoding.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/t5x/decoding.py b/t5x/decoding.py
index 395a6af..3f84a92 100644
--- a/t5x/decoding.py
+++ b/t5x/decoding.py
@@ -1248,6 +1248,12 @@ def beam_search(
   else:
     initial_index = jnp.zeros((batch_size,), dtype=jnp.int32)
 
+  # Prompt tokens are looked up for every position below `max_decode_len`; pad
+  # so that positions past the end of `inputs` count as out of prompt.
+  inputs = jnp.pad(
+      inputs, ((0, 0), (0, max(0, max_decode_len - inputs.shape[1])))
+  )
+
   # initialize beam search state
   beam_search_init_state = beam_init(
       batch_size,
-- 
2.43.0


From 7f8ef28b0f21a9e049281e0d24dcd403da25293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 04/53] fix: CALM sampling no longer fails with
 max_decode_steps

The confidence and exit buffers took their shape from max_decode_len, which is
an array when max_decode_steps is given.
---
 t5x/contrib/calm/decoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index 59497fa..19b185e 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -477,8 +477,8 @@ def _temperature_sample_single_trial(
   # as well as the generated output of newly sampled tokens.
   sequences0 = expanded_prompt_inputs
   log_prob0 = jnp.zeros((batch_size,), dtype=jnp.float32)
-  confidences0 = -1.0 * jnp.ones((batch_size, max_decode_len), jnp.float32)
-  exits0 = -1 * jnp.ones((batch_size, max_decode_len), jnp.int32)
+  confidences0 = -1.0 * jnp.ones(inputs.shape, jnp.float32)
+  exits0 = -1 * jnp.ones(inputs.shape, jnp.int32)
   sampling_loop_init_state = SamplingLoopState(
       i0,
       sequences0,
-- 
2.43.0


From cc7308bc530d04ad3cf3d874a7d470d20710cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 05/53] fix: CALM confidences and exits are recorded at each
 item's own position

When batch elements are at different positions (prefilled caches), every value
was written to the positions of all elements of the batch.
---
 t5x/contrib/calm/decoding.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/decoding.py b/t5x/contrib/calm/decoding.py
index 19b185e..83c8604 100644
--- a/t5x/contrib/calm/decoding.py
+++ b/t5x/contrib/calm/decoding.py
@@ -658,8 +658,14 @@ def _temperature_sample_single_trial(
         | jnp.expand_dims(i >= max_decode_len - 1, axis=1)
     )
 
-    new_conf = confidences.at[:, i].set(conf)
-    new_exits = exits.at[:, i].set(exit_layer)
+    # Each batch element records at its own position `i`.
+    rows = jnp.arange(batch_size)
+    new_conf = confidences.at[rows, i].set(
+        jnp.broadcast_to(jnp.ravel(conf), (batch_size,))
+    )
+    new_exits = exits.at[rows, i].set(
+        jnp.broadcast_to(jnp.ravel(exit_layer), (batch_size,))
+    )
 
     return SamplingLoopState(
         i + 1,
-- 
2.43.0


From 6da1179b35d8ea828de2ba04842140ff3135aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 06/53] fix: Checkpointer.restore ignored a latest checkpoint
 of step 0

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index ada1b4e..edd0e62 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1036,7 +1036,7 @@ class Checkpointer(object):
     else:
       if step is None:
         step = self.latest_step()
-        if not step:
+        if step is None:
           raise ValueError(f'No checkpoints found in {self.checkpoints_dir}.')
       ckpt_path = self._get_checkpoint_dir(step)
 
-- 
2.43.0


From bcd40a2fa23874eb154c5038c481bf6d626ec696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 07/53] fix: load_t5x_checkpoint cast optimizer state and step
 to restore_dtype

---
 t5x/checkpoints.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index edd0e62..75ad0f7 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -1932,15 +1932,18 @@ def load_t5x_checkpoint(
         maybe_ts_spec, get_fn, dtype=restore_dtype
     )
 
-  state_dict = jax.tree_util.tree_map(
-      functools.partial(
-          _create_lazy_awaitable_array,
-          ckpt_path=path,
-          restore_dtype=restore_dtype,
-      ),
-      param_infos,
-      ckpt_optimizer_state_with_specs,
-  )
+  state_dict = {}
+  for k in param_infos.keys():
+    # ensure that only 'target' is cast
+    state_dict[k] = jax.tree_util.tree_map(
+        functools.partial(
+            _create_lazy_awaitable_array,
+            ckpt_path=path,
+            restore_dtype=restore_dtype if k == 'target' else None,
+        ),
+        param_infos[k],
+        ckpt_optimizer_state_with_specs[k],
+    )
 
   if not lazy_parameters:
     future_state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From 0a339338e2aa474aecfd03825ed01caa93c6fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 08/53] fix: reject malformed checkpoint names instead of
 reading a step out of them

---
 t5x/checkpoints_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints_utils.py b/t5x/checkpoints_utils.py
index 89163d9..2f0e0d2 100644
--- a/t5x/checkpoints_utils.py
+++ b/t5x/checkpoints_utils.py
@@ -84,6 +84,9 @@ def get_step_from_checkpoint_dir(checkpoints_dir: str) -> Tuple[str, int]:
   if checkpoints_dir.endswith('/'):
     checkpoints_dir = checkpoints_dir[:-1]
   parent, checkpoint = os.path.split(checkpoints_dir)
-  if get_checkpoint_prefix() not in checkpoint:
+  match = re.fullmatch(
+      rf'{re.escape(get_checkpoint_prefix())}_([0-9]+)', checkpoint
+  )
+  if not match:
     raise ValueError('Found improperly formatted checkpoint directory.')
-  return parent, int(checkpoint.replace(f'{get_checkpoint_prefix()}_', ''))
+  return parent, int(match.group(1))
-- 
2.43.0


From 1f1b60f7ba88ea6b7e3ff2d1e65924bc47e069b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 09/53] fix: restore the requested step of a native checkpoint
 through the Orbax manager

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 75ad0f7..6768779 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2451,7 +2451,7 @@ class OrbaxCheckpointManagerInterface:
             restore_dtype=self._restore_dtype,
         )
         return legacy_checkpointer.restore(
-            path=path,
+            path=ckpt_path,
             fallback_state=fallback_state,
             state_transformation_fns=state_transformation_fns,
         )
-- 
2.43.0


From 26a6227df14623e396a88319787ae8af54afd2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 10/53] fix: apply save_dtype to the target when saving with
 Orbax

---
 t5x/checkpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 6768779..4048c23 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2057,9 +2057,9 @@ def _construct_save_args(
     param_info: _OrbaxParamInfo, dtype: jnp.dtype
 ) -> ocp.SaveArgs:
   """Create SaveArgs for Orbax saving."""
-  if param_info.name.split('.')[0] != 'target':
+  if param_info.name.split('/')[0] != 'target':
     dtype = None
-  return ocp.SaveArgs(dtype=dtype)
+  return ocp.SaveArgs(dtype=None if dtype is None else jnp.dtype(dtype))
 
 
 def _construct_restore_args(
-- 
2.43.0


From 341ca9bc35691ea03132a092cb8072ae6f4783e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 11/53] fix: cast only the target to restore_dtype when
 restoring with Orbax

---
 t5x/checkpoints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 4048c23..7e8c612 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2508,11 +2508,12 @@ class OrbaxCheckpointManagerInterface:
     # fallback state.
     def _maybe_make_sharded_array_helper(arr, info):
       if arr is not None:
+        is_target = info.name.split('/')[0] == 'target'
         return _maybe_make_sharded_array(
             arr,
             self._partitioner.mesh,
             axes=info.mesh_axes,
-            restore_dtype=self._restore_dtype,
+            restore_dtype=self._restore_dtype if is_target else None,
         )
 
     state_dict = jax.tree_util.tree_map(
-- 
2.43.0


From db179df699c98835297f979a075fa62d4efdd0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 12/53] fix: restore states without an optimizer (None entries)
 with Orbax

---
 t5x/checkpoints.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 7e8c612..478d694 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2115,6 +2115,11 @@ def _construct_orbax_restoration_transforms(
   structure, _ = state_handler._get_internal_metadata(  # pylint: disable=protected-access
       state_subdir
   )
+  # Empty entries (e.g. states of parameters without an optimizer) have metadata
+  # but no array to read.
+  structure = jax.tree.map(
+      lambda x: None if getattr(x, 'value_type', '') == 'None' else x, structure
+  )
   # Note: Ideally we would use Orbax's `transform_fn` to do this logic, but
   # the problem is we need to modify `restore_args`, and there isn't a great
   # way to do that within Orbax.
@@ -2133,6 +2138,11 @@ def _construct_orbax_restoration_transforms(
   restore_args = state_utils.intersect_state(
       restore_args, state_dict_to_restore
   )
+  restore_args = jax.tree.map(
+      lambda args, x: None if x is None else args,
+      restore_args,
+      state_dict_to_restore,
+  )
 
   def _transform_fn(
       item_: PyTree, structure_: PyTree, param_infos_: PyTree
-- 
2.43.0


From 55adc89df74252067206264647008b035f7d960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 13/53] fix: honour SaveBestCheckpointer settings when saving
 with Orbax

---
 t5x/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index 15c872d..f97fc34 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1319,8 +1319,8 @@ def create_orbax_checkpoint_manager(
       # differently since it's a functools.partial.
       extra_kwargs = _get_default_args(cfg.checkpointer_cls)
     else:
-      if issubclass(
-          type(cfg.checkpointer_cls), checkpoints.SaveBestCheckpointer
+      if isinstance(cfg.checkpointer_cls, type) and issubclass(
+          cfg.checkpointer_cls, checkpoints.SaveBestCheckpointer
       ):
         save_best_checkpointer = checkpoints.SaveBestCheckpointer(
             train_state=train_state,
-- 
2.43.0


From a2cee985e6f685b76aec778dd9aa592945ae7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 14/53] fix: an old parameter no longer overrides the mapped
 value of the same name

---
 t5x/state_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/state_utils.py b/t5x/state_utils.py
index aa1af46..b0c2ea5 100644
--- a/t5x/state_utils.py
+++ b/t5x/state_utils.py
@@ -213,7 +213,7 @@ def apply_assignment_map(
   # Now re-add the unmapped keys. This is a 2-step process so that the `pop()`
   # call above doesn't mis-fire if the assignment map "rotates" a chain of keys.
   for key, v in unmapped_old_keys.items():
-    if key not in explicitly_skipped_keys:
+    if key not in explicitly_skipped_keys and key not in result:
       result[key] = v
 
   # If any new keys weren't mapped, but are in the old checkpoint, copy those.
-- 
2.43.0


From 003007d0ff23957b48680f087956333bc0368bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 15/53] fix: admit a write that needs the whole concurrency
 budget

---
 t5x/checkpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 478d694..65624ad 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -431,7 +431,7 @@ class _BytesConditionVariable(object):
 
   async def wait_for_bytes(self, n_bytes):
     async with self._cv:
-      await self._cv.wait_for(lambda: self._num_bytes > n_bytes)
+      await self._cv.wait_for(lambda: self._num_bytes >= n_bytes)
       self._num_bytes -= n_bytes
       assert self._num_bytes >= 0
 
-- 
2.43.0


From 1e9bf56150037c308f51bc5af76dc3e9721453ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 16/53] fix: share the concurrency budget between the array
 writes of a save

---
 t5x/checkpoints.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 65624ad..e405d8e 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -853,6 +853,7 @@ class Checkpointer(object):
   ) -> Mapping[str, Any]:
     """Writes extracted state from train state to Tensorstore."""
     concurrent_bytes = concurrent_gb * 10**9
+    bytes_cv = _BytesConditionVariable(concurrent_bytes)
 
     async def _write_array(
         maybe_arr: Any, param_info: Optional[_ParameterInfo], cast: bool = False
@@ -870,8 +871,6 @@ class Checkpointer(object):
       Returns:
         Tensorstore spec corresponding to the written array.
       """
-      bytes_cv = _BytesConditionVariable(concurrent_bytes)
-
       if isinstance(maybe_arr, LazyArray):
         maybe_arr = await maybe_arr.get_async()
 
-- 
2.43.0


From 4470eca26ebafab1398b8c769a84d0aa31fd562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 17/53] fix: warn instead of raising a non-exception for 2D MoE
 parameter sharding

---
 t5x/contrib/moe/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/moe/partitioning.py b/t5x/contrib/moe/partitioning.py
index c4cd61d..2dece00 100644
--- a/t5x/contrib/moe/partitioning.py
+++ b/t5x/contrib/moe/partitioning.py
@@ -394,7 +394,7 @@ def standard_logical_axis_rules(
   _ = base_partitioning.global_mesh_defined()
 
   if parameter_partitioning_dims == 2:
-    raise logging.warning(
+    logging.warning(
         '2D parameter sharding (`parameter_partitioning_dims=2`) is supported '
         'but untested for MoE.'
     )
-- 
2.43.0


From 00898b8a0b1228fcc4aaee4b3f3de7e2c0dea72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 18/53] fix: CheckpointTranslator rules with top-level
 alternatives must match the whole name

---
 t5x/checkpoint_importer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/t5x/checkpoint_importer.py b/t5x/checkpoint_importer.py
index 312ecf5..36d3abb 100644
--- a/t5x/checkpoint_importer.py
+++ b/t5x/checkpoint_importer.py
@@ -206,7 +206,7 @@ class CheckpointTranslator:
 
     Args:
       pattern: regex with capture groups for matching given sets of model
-        variables.  We terminate all regexes with '$' to force complete matches.
+        variables.  All regexes must match the complete name.
 
     Returns:
       Translation function decorator for associating with the provided
@@ -214,8 +214,7 @@ class CheckpointTranslator:
     """
 
     def register_translation_fn_decorator(fn):
-      # We force a complete match by adding end-of-string match.
-      self.rules.append((re.compile(pattern + '$'), fn))
+      self.rules.append((re.compile(pattern), fn))
       return fn
 
     return register_translation_fn_decorator
@@ -236,8 +235,10 @@ class CheckpointTranslator:
     for k, v in flatdict.items():
       matched = False
       for rule_pat, rule_fn in self.rules:
-        if rule_pat.match(k):
-          groups = rule_pat.match(k).groups()
+        # We force a complete match, also of each top-level alternative.
+        match = rule_pat.fullmatch(k)
+        if match:
+          groups = match.groups()
           new_k, new_v = rule_fn(opts, k, v, *groups)
           if new_k is not None:
             new_dict[new_k] = new_v
-- 
2.43.0


From 09d71c3da0688241d723688b84e3061bd0f3668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 19/53] fix: restore_from_t5_checkpoint must fail when model
 variables are missing

---
 t5x/checkpoint_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t5x/checkpoint_importer.py b/t5x/checkpoint_importer.py
index 36d3abb..40985ac 100644
--- a/t5x/checkpoint_importer.py
+++ b/t5x/checkpoint_importer.py
@@ -496,6 +496,10 @@ def _update_state_dict(
       if k not in flat_state_dict:
         t5_data.pop(k)
 
+  missing = flat_state_dict.keys() - t5_data.keys()
+  if missing:
+    raise ValueError(f'Variables missing in checkpoint: {sorted(missing)}')
+
   # Shape check.
   for k, v in t5_data.items():
     if flat_state_dict[k].shape != v.shape:
-- 
2.43.0


From 7abddb43451a43a71e2d7582ea4eb17afcd30364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 20/53] fix: derive axes for optax.zero_nans' per-parameter
 state

ZeroNansState.found_nan has the structure of the parameters, so a rule that
gives a single None cannot be restored into the optimizer state.
---
 t5x/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/optimizers.py b/t5x/optimizers.py
index 8b1283a..7c0273a 100644
--- a/t5x/optimizers.py
+++ b/t5x/optimizers.py
@@ -261,7 +261,7 @@ class OptaxStatePartitionRules:
       ),
       optax.ScaleByScheduleState: _scale_by_schedule_ctor,
       optax.ZeroNansState: lambda state, params_axes: optax.ZeroNansState(
-          found_nan=None
+          found_nan=jax.tree.map(lambda x: None, state.found_nan)
       ),
       # FactoredState
       # Recursive, Combinator Optax States:
-- 
2.43.0


From 529739413a3ebc62839a375d4edaa0e327d82469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 21/53] fix: keep a requested stop when later actions do not
 request one

The result of each run_actions call overwrote stop_training, so a stop
requested by a TRAIN or TRAIN_EVAL action was lost as soon as another action
mode (for example INFER_EVAL without any action) ran in the same epoch.
---
 t5x/train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index baa989a..af33511 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -514,7 +514,7 @@ def train(
         eval_batch_iters[task] = ds
 
     eval_summaries = trainer.eval(eval_batch_iters)
-    trainer.stop_training = run_actions(
+    trainer.stop_training |= run_actions(
         trainer_lib.ActionMode.TRAIN_EVAL,  # pytype: disable=wrong-arg-types  # jax-ndarray
         actions,
         trainer.train_state,
@@ -531,7 +531,7 @@ def train(
     if not concurrent_metrics:
       # Ensure metrics are finished being computed.
       all_metrics_done = all_metrics.result() or {}
-      trainer.stop_training = run_actions(
+      trainer.stop_training |= run_actions(
           trainer_lib.ActionMode.INFER_EVAL,
           actions,
           trainer.train_state,
@@ -724,7 +724,7 @@ def train(
           # that the actions can be performed without special casing. The
           # only caveat is that train would need its own special `key`
           # given no `task` will be applied.
-          trainer.stop_training = run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
+          trainer.stop_training |= run_actions(  # pytype: disable=wrong-arg-types  # jax-ndarray
               trainer_lib.ActionMode.TRAIN,
               actions,
               trainer.train_state,
-- 
2.43.0


From e26b30b1bf20fd3a2ec3e62a15c7a7bd33b39654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 22/53] fix: train past the last of checkpoint_steps, and
 without a checkpoint period

Once the last checkpoint step had been reached it was found again, as zero (or
a negative number of) steps away, and the training loop made no progress any
more. checkpoint_steps without a period failed with a TypeError, and then never
saved a checkpoint step equal to total_steps.
---
 t5x/train.py | 5 +++--
 t5x/utils.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index af33511..a04cb41 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -712,8 +712,9 @@ def train(
             checkpoint_period,
             first_step,
         )
-        # Handled separately if this is the overall last step.
-        if host_step + inner_num_steps == total_steps:
+        # Handled separately if this is the overall last step (which is only
+        # saved there when checkpointing periodically).
+        if checkpoint_period and host_step + inner_num_steps == total_steps:
           is_checkpoint_step = False
 
         train_summary = trainer.train(
diff --git a/t5x/utils.py b/t5x/utils.py
index f97fc34..2418111 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2328,8 +2328,12 @@ def find_next_checkpoint_step(
   ):
     curr_checkpoint_step = checkpoint_steps[checkpoint_steps_index]
     if (
-        ((curr_checkpoint_step - first_step) % checkpoint_period != 0)
+        (
+            not checkpoint_period
+            or (curr_checkpoint_step - first_step) % checkpoint_period != 0
+        )
         and curr_checkpoint_step > first_step
+        and curr_checkpoint_step > host_step
         and curr_checkpoint_step <= epoch_end_step
     ):
       # Found a checkpoint step before inner_num_steps + host_step that
-- 
2.43.0


From e94456e19e971659d6c116f14d4f9dbde1fcbc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:57 +0000
Subject: [PATCH 23/53] fix: resume with the checkpoint manager class that
 saved

The configuration for restoring from model_dir always named the default
checkpoint_manager_cls, so a run saving with another one could not resume
('Must provide matching configurations').
---
 t5x/train.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t5x/train.py b/t5x/train.py
index a04cb41..4df63af 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -320,6 +320,9 @@ def train(
           checkpointer_cls=checkpoint_cfg.save.checkpointer_cls
           if checkpoint_cfg.save
           else checkpoints.Checkpointer,
+          checkpoint_manager_cls=checkpoint_cfg.save.checkpoint_manager_cls
+          if checkpoint_cfg.save
+          else checkpoints.OrbaxCheckpointManagerInterface,
           # Restore dataset state if it is being saved.
           restore_dataset=(
               checkpoint_cfg.save and checkpoint_cfg.save.save_dataset
-- 
2.43.0


From 2f8e0e2e58f766bc2fcd14e0d2bb8490fb409915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 24/53] fix: never save the same step twice in one training run

The Orbax checkpoint manager refuses to save a step that exists, so a stop
requested during the last epoch, right after one of checkpoint_steps was
saved, or a preemption at a saved step ended the run with an error.
---
 t5x/train.py | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 4df63af..4d1745d 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -555,6 +555,22 @@ def train(
       logging.info('Running inference eval before training.')
       _run_inference_eval()
 
+  last_saved_step = None
+
+  def _save_checkpoint():
+    """Saves the train state, unless this run just saved the same step."""
+    nonlocal last_saved_step
+    step = int(utils.get_local_data(trainer.train_state.step))
+    # Orbax will error out if we try to save a checkpoint that already exists.
+    if step == last_saved_step:
+      logging.info('A checkpoint for step %d has been saved already.', step)
+      return
+    checkpoint_manager.save(
+        trainer.train_state,
+        checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
+    )
+    last_saved_step = step
+
   # Save checkpoints before the training loop starts.
   if checkpoint_period and checkpoint_manager:
     # If not using Orbax, always save checkpoint, otherwise, only save a
@@ -567,10 +583,9 @@ def train(
         not in checkpoint_manager.all_steps()
     ):
       logging.info('Saving checkpoint before the training loop starts.')
-      checkpoint_manager.save(
-          trainer.train_state,
-          checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-      )
+      _save_checkpoint()
+    else:
+      last_saved_step = int(utils.get_local_data(trainer.train_state.step))
 
   # If we take manual control of the garbage collector, we need to disable it
   # before starting training.
@@ -684,10 +699,7 @@ def train(
         if trainer.stop_training:
           if checkpoint_period and checkpoint_manager:
             logging.info('Saving a checkpoint before early stopping...')
-            checkpoint_manager.save(
-                trainer.train_state,
-                checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-            )
+            _save_checkpoint()
           logging.info(
               'Stopping training loop early since `stop_training` is requested.'
           )
@@ -737,10 +749,7 @@ def train(
 
         if is_checkpoint_step and checkpoint_manager:
           logging.info('Saving a checkpoint at specified checkpoint step')
-          checkpoint_manager.save(
-              trainer.train_state,
-              checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-          )
+          _save_checkpoint()
           # Increment the checkpoint_step_index only if a checkpoint was saved.
           if (
               checkpoint_steps
@@ -752,10 +761,7 @@ def train(
     except trainer_lib.PreemptionError as e:
       if checkpoint_period and checkpoint_manager:
         logging.info('Saving emergency checkpoint.')
-        checkpoint_manager.save(
-            trainer.train_state,
-            checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-        )
+        _save_checkpoint()
         checkpoint_manager.wait_until_finished()
         logging.info('Saving emergency checkpoint done.')
       raise e
@@ -775,10 +781,7 @@ def train(
       logging.info('Saving checkpoint.')
       checkpoint_tick = time.time()
       # Make sure last train step has completed before starting the clock.
-      checkpoint_manager.save(
-          trainer.train_state,
-          checkpoint_cfg.save.state_transformation_fns,  # pytype: disable=attribute-error
-      )
+      _save_checkpoint()
       # `_run_training_eval`` depends upon the result of the checkpoint,
       # thus calling `wait_until_finished()`` here.
       checkpoint_manager.wait_until_finished()
-- 
2.43.0


From 873eceb66b2ed7deec473de2f2679b9912bf1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 25/53] fix: leave the collector and checkpoint manager in
 order when there is nothing to train

With total_steps already reached, train returned with garbage collection
disabled and without waiting for the checkpoint saved before training.
---
 t5x/train.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index 4d1745d..eab2fa1 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -587,11 +587,6 @@ def train(
     else:
       last_saved_step = int(utils.get_local_data(trainer.train_state.step))
 
-  # If we take manual control of the garbage collector, we need to disable it
-  # before starting training.
-  if gc_period:
-    gc.disable()
-
   # ----------------------------------------------------------------------------
   # Main training loop
   # ----------------------------------------------------------------------------
@@ -619,9 +614,16 @@ def train(
         'Stopping now.',
         total_steps,
     )
+    if checkpoint_manager:
+      checkpoint_manager.close()
     _cleanup()
     return host_step, trainer.train_state
 
+  # If we take manual control of the garbage collector, we need to disable it
+  # before starting training.
+  if gc_period:
+    gc.disable()
+
   logging.info('Starting main loop over steps %d-%d', first_step, total_steps)
 
   steps_per_epoch = min(steps_per_epoch, total_steps)
-- 
2.43.0


From b8c2b118d6966cac9f228e86322d724f1f78bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 26/53] fix: draw a different dropout rng for every microbatch

The split rng was dropped, so every microbatch of a step used the same one.
---
 t5x/trainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t5x/trainer.py b/t5x/trainer.py
index 965bd09..a674306 100644
--- a/t5x/trainer.py
+++ b/t5x/trainer.py
@@ -791,7 +791,7 @@ def accumulate_grads_microbatched(
         (_, (metrics, flax_mutables)), grad = grad_fn(
             train_state.params, mbatch, sub_dropout_rng, flax_mutables
         )
-      return metrics, grad, flax_mutables
+      return dropout_rng, metrics, grad, flax_mutables
 
     def per_microbatch_train_step(
         loop_cnt: int,
@@ -808,7 +808,7 @@ def accumulate_grads_microbatched(
         Optional[FlaxMutables],
     ]:
       (dropout_rng, grad_accum, prev_metrics, flax_mutables) = state
-      metrics, grad, flax_mutables = metrics_and_grad(
+      dropout_rng, metrics, grad, flax_mutables = metrics_and_grad(
           loop_cnt, dropout_rng, flax_mutables
       )
 
@@ -826,7 +826,7 @@ def accumulate_grads_microbatched(
     grad_accum_init = jax.tree_util.tree_map(
         lambda x: jnp.zeros(x.shape, accum_dtype), train_state.params
     )
-    initial_metrics_shape, _, _ = jax.eval_shape(
+    _, initial_metrics_shape, _, _ = jax.eval_shape(
         metrics_and_grad,
         loop_cnt=0,
         dropout_rng=dropout_rng,
-- 
2.43.0


From b9c1e05222a31c7c623d328c1293bfc577d8f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 27/53] fix: save the final checkpoint also when stopping
 between epochs

A stop requested at the end of an epoch that is not at the checkpoint period
(e.g. by an evaluation action) ended the run without saving.
---
 t5x/train.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/t5x/train.py b/t5x/train.py
index eab2fa1..fb1c84f 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -689,6 +689,9 @@ def train(
 
     # `stop_training` is requested, break out the main loop immediately.
     if trainer.stop_training:
+      if checkpoint_period and checkpoint_manager:
+        logging.info('Saving a checkpoint before early stopping...')
+        _save_checkpoint()
       break
 
     logging.info('BEGIN Train loop.')
-- 
2.43.0


From 5b50a5c1fac201b148a321f1a67971db38186aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 28/53] fix: mark inference as completed before deleting its
 chunks

---
 t5x/infer.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index 4771216..d2a37ec 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -549,6 +549,19 @@ def infer(
   )
 
   def infer_task(task: seqio.Task):
+    output_fname = (
+        f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
+    )
+    if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
+      logging.info(
+          "File %s exists. Skipping inference for shard %d/%d of task '%s'",
+          output_fname,
+          shard_id,
+          num_shards,
+          task.name,
+      )
+      return
+
     tmp_dir = os.path.join(
         output_dir, f'tmp-{task.name}-{shard_id:05}-of-{num_shards:05}'
     )
@@ -586,18 +599,6 @@ def infer(
         logging.info('Restoring input iterator from %s', ckpt_path)
         input_ckpt.read(ckpt_path).assert_consumed()
 
-    output_fname = (
-        f'{task.name}-{mode}.{file_extension}-{shard_id:05}-of-{num_shards:05}'
-    )
-    if gfile.exists(os.path.join(output_dir, f'{output_fname}.COMPLETED')):
-      logging.info(
-          "File %s exists. Skipping inference for shard %d/%d of task '%s'",
-          output_fname,
-          shard_id,
-          num_shards,
-          task.name,
-      )
-      return
     logging.info(
         "Starting inference loop for shard %d of %d of task '%s'.",
         shard_id,
@@ -720,8 +721,6 @@ def infer(
     if jax.process_index() == 0 and merge_chunked_results:
       step = None if train_state is None else int(train_state.step)
       merge_fn(output_dir, output_fname, tmp_dir, step)
-      logging.info('Deleting temporary files.')
-      gfile.rmtree(tmp_dir)
 
     if jax.process_index() == 0:
       with gfile.GFile(
@@ -729,6 +728,12 @@ def infer(
       ) as f:
         f.write('')
 
+    # Only delete the chunks once the task is marked as completed, since an
+    # interrupted deletion leaves too few of them to merge again.
+    if jax.process_index() == 0 and merge_chunked_results:
+      logging.info('Deleting temporary files.')
+      gfile.rmtree(tmp_dir)
+
     # Wait for host 0 to finish writing before exiting.
     utils.sync_global_devices(f'{task.name}:complete')
 
-- 
2.43.0


From 84023f028a3ca1c705c3c7d23234e8b9ef7ccb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 29/53] fix: switch the iterator checkpoint of inference
 atomically

---
 t5x/infer.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/t5x/infer.py b/t5x/infer.py
index d2a37ec..b9b3cca 100644
--- a/t5x/infer.py
+++ b/t5x/infer.py
@@ -592,12 +592,16 @@ def infer(
 
     if checkpoint_ds_iter:
       # Create checkpoint manager and restore state, if applicable.
+      # This file names the checkpoint to restore, which has several files and
+      # thus could not be replaced atomically itself.
       ckpt_path = os.path.join(tmp_dir, 'input.ckpt')
 
       input_ckpt = tf.train.Checkpoint(ds=infer_ds_iter)
-      if gfile.glob(ckpt_path + '*'):
-        logging.info('Restoring input iterator from %s', ckpt_path)
-        input_ckpt.read(ckpt_path).assert_consumed()
+      if gfile.exists(ckpt_path):
+        with gfile.GFile(ckpt_path, 'r') as f:
+          latest_ckpt_path = os.path.join(tmp_dir, f.read())
+        logging.info('Restoring input iterator from %s', latest_ckpt_path)
+        input_ckpt.read(latest_ckpt_path).assert_consumed()
 
     logging.info(
         "Starting inference loop for shard %d of %d of task '%s'.",
@@ -633,10 +637,11 @@ def infer(
 
       if chunk_ckpt_path:
         # Canonicalize checkpoint.
-        for fname in gfile.glob(chunk_ckpt_path + '*'):
-          gfile.rename(
-              fname, fname.replace(chunk_ckpt_path, ckpt_path), overwrite=True
-          )
+        with gfile.GFile(ckpt_path + '.tmp', 'w') as f:
+          f.write(os.path.basename(chunk_ckpt_path))
+        gfile.rename(ckpt_path + '.tmp', ckpt_path, overwrite=True)
+        for fname in gfile.glob(os.path.join(tmp_dir, f'{chunk - 1}.ckpt.*')):
+          gfile.remove(fname)
 
     # Main Loop over "chunks".
     for chunk, chunk_batch in infer_ds_iter:
@@ -689,8 +694,8 @@ def infer(
         if checkpoint_ds_iter:
           # Store iterator checkpoint in temporary location before writing the
           # model output asynchronously. After outputs are written, the
-          # checkpoint will be moved to the canonical location to be used if
-          # restart occurs.
+          # checkpoint will be made the canonical one to be used if restart
+          # occurs.
           ckpt_tick = time.time()
           chunk_ckpt_path = input_ckpt.write(
               os.path.join(tmp_dir, f'{chunk}.ckpt')
-- 
2.43.0


From 174d3a21b240926c662907a7588ddf36dcead1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 30/53] fix: replace the record of evaluated checkpoints
 atomically

---
 t5x/eval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index aa9dd45..6a05339 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -391,8 +391,9 @@ def evaluate(
       # Read/write/replace rather than append to avoid filesystem issue.
       evaluated_ckpt_paths = _load_evaluated_ckpt_paths(eval_ckpt_path)
       evaluated_ckpt_paths.add(ckpt_path)
-      with gfile.GFile(eval_ckpt_path, 'w') as f:
+      with gfile.GFile(eval_ckpt_path + '.tmp', 'w') as f:
         f.write('\n'.join(_sorted_ckpt_paths(evaluated_ckpt_paths)))
+      gfile.rename(eval_ckpt_path + '.tmp', eval_ckpt_path, overwrite=True)
 
   logging.info('Finished.')
 
-- 
2.43.0


From 9fab5a45b73fc53e6adfad2f1342073b0f803cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 31/53] fix: find TensorFlow checkpoints when resuming
 evaluation

---
 t5x/eval.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index 6a05339..1315cfc 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -20,6 +20,7 @@ r"""Runs training- and inference-evaluation on a T5X-compatible model.
 
 # pyformat: enable
 # pylint:enable=line-too-long
+import dataclasses
 import functools
 import os
 import re
@@ -30,7 +31,6 @@ from absl import logging
 from clu import metric_writers
 import jax
 import seqio
-from t5x import checkpoints
 from t5x import gin_utils
 from t5x import models
 from t5x import partitioning
@@ -341,9 +341,12 @@ def evaluate(
             f"Checkpoint path '{ckpt_dir}' must be a valid directory when "
             "using restore mode 'all'."
         )
+      # List the same checkpoints as without the evaluation checkpoint, which
+      # may be TensorFlow ones.
       ckpt_paths.update(
-          checkpoints.get_checkpoint_dir(ckpt_dir, step)
-          for step in checkpoints.all_steps(ckpt_dir)
+          utils.get_first_valid_restore_config_and_paths(
+              [dataclasses.replace(restore_checkpoint_cfg, path=ckpt_dir)]
+          )[1]
       )
 
     evaluated_ckpt_paths = _load_evaluated_ckpt_paths(eval_ckpt_path)
-- 
2.43.0


From d695d4af821171ad4901bb5dbdfddcc10a88be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 32/53] fix: keep evaluated checkpoint paths with spaces intact

---
 t5x/eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index 1315cfc..ea0cc21 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -196,7 +196,7 @@ def _load_evaluated_ckpt_paths(eval_ckpt_path: str) -> Set[str]:
   if not gfile.exists(eval_ckpt_path):
     return set()
   with gfile.GFile(eval_ckpt_path, 'r') as f:
-    return set(f.read().split())
+    return set(f.read().splitlines())
 
 
 def evaluate(
-- 
2.43.0


From ec093872625e3eb733ca58f68fe69c621b4e69b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 33/53] fix: do not change the caller's restore mode when
 resuming evaluation

---
 t5x/eval.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index ea0cc21..55edd1d 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -356,8 +356,7 @@ def evaluate(
         '\n '.join(_sorted_ckpt_paths(ckpt_paths & evaluated_ckpt_paths)),
     )
     ckpt_paths = _sorted_ckpt_paths(ckpt_paths - evaluated_ckpt_paths)
-    restore_cfg = restore_checkpoint_cfg
-    restore_cfg.mode = 'specific'
+    restore_cfg = dataclasses.replace(restore_checkpoint_cfg, mode='specific')
 
   else:
     restore_cfg, ckpt_paths = utils.get_first_valid_restore_config_and_paths(
-- 
2.43.0


From ff5cac2dabe553da3af23b421d1fdcc3e2569bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 34/53] fix: return inference results in the order of the
 examples

---
 t5x/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index 2418111..e5326b9 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -1763,8 +1763,9 @@ def get_infer_fn(
     # Note: remove padding first, as -1 indices would mess up this operation.
     # Note: all_inferences may be a PyTree, not just an array, e.g. if
     # `infer_step` is `model.predict_batch_with_aux`.
-    all_inferences = jax.tree.map(lambda x: x[all_indices], all_inferences)
-    all_indices = all_indices[all_indices]
+    order = np.argsort(all_indices)
+    all_inferences = jax.tree.map(lambda x: x[order], all_inferences)
+    all_indices = all_indices[order]
 
     # aux_values is supposed to be a dictionary that maps strings to a set of
     # auxiliary values.
-- 
2.43.0


From 384a62a6707c626d3eefd9e4c0c47b9f910a84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 35/53] fix: do not run off the end of the list of checkpoint
 steps

With is_checkpoint_step already set, find_next_checkpoint_step raised an
IndexError when no listed step was due.
---
 t5x/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/t5x/utils.py b/t5x/utils.py
index e5326b9..0ff7c06 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -2342,10 +2342,7 @@ def find_next_checkpoint_step(
       inner_num_steps = curr_checkpoint_step - host_step
       is_checkpoint_step = True
       return (inner_num_steps, is_checkpoint_step)
-    if (
-        not is_checkpoint_step
-        and checkpoint_steps_index == len(checkpoint_steps) - 1
-    ):
+    if checkpoint_steps_index == len(checkpoint_steps) - 1:
       # Iterated through all of checkpoint_steps, and there are no new
       # checkpoint steps before inner_num_steps + host_step.
       return (inner_num_steps, is_checkpoint_step)
-- 
2.43.0


From 4a6b3e7cf042bf532e6e145c46fa1f63b740079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 36/53] fix: rewrite short-form Fiddle flags

config_utils.run asked whether Fiddle flags were set before they had been
parsed, so the answer was always no and --fdl.NAME=VALUE was rejected as an
unknown flag.
---
 t5x/config_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/t5x/config_utils.py b/t5x/config_utils.py
index 23355be..b1c8e44 100644
--- a/t5x/config_utils.py
+++ b/t5x/config_utils.py
@@ -208,8 +208,6 @@ def run(main):
     args = gin_utils.rewrite_gin_args(args)
     return fdl_flags.flags_parser(args)
 
+  # The Fiddle flags cannot be consulted here: this only parses JAX flags.
   jax.config.parse_flags_with_absl()
-  if using_fdl():
-    utils.run_main(main, flags_parser=flags_parser)
-  else:
-    gin_utils.run(main)
+  utils.run_main(main, flags_parser=flags_parser)
-- 
2.43.0


From c6cd79726a56f8cd08662bb310f96d878d69b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 37/53] fix: do not modify the decoder_params of the caller

---
 t5x/contrib/calm/models.py | 4 ++--
 t5x/models.py              | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index a107dde..1d47577 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -971,8 +971,8 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           max_decode_length=target_shape[1],
       )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # Copied, as the entries added below must not leak to the caller.
+    decoder_params = dict(decoder_params or {})
     if rng is not None:
       if decoder_params.get('decode_rng') is not None:
         raise ValueError(
diff --git a/t5x/models.py b/t5x/models.py
index 4ca0783..6853032 100644
--- a/t5x/models.py
+++ b/t5x/models.py
@@ -714,8 +714,8 @@ class EncoderDecoderModel(BaseTransformerModel):
         max_decode_length=decoder_input_tokens.shape[1],
     )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # Copied, as the entries added below must not leak to the caller.
+    decoder_params = dict(decoder_params or {})
     if initial_index is not None:
       # We only set initial_index when it's non-None since it is not supported
       # by all decoders.
@@ -1201,8 +1201,8 @@ class DecoderOnlyModel(BaseTransformerModel):
         max_decode_length=max_decode_length,
     )
 
-    if decoder_params is None:
-      decoder_params = {}
+    # Copied, as the entries added below must not leak to the caller.
+    decoder_params = dict(decoder_params or {})
     if rng is not None:
       if decoder_params.get('decode_rng') is not None:
         raise ValueError(
-- 
2.43.0


From c7d6546e610fe93b33aae3c43d57eb72cead0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 38/53] fix: annotate the accumulated gradients of a masked
 optax.MultiSteps

The accumulated gradients follow the parameters the transformation sees; under
optax.masked or optax.multi_transform some are MaskedNodes, and annotating
them with the axes of all parameters made derive_logical_axes raise.
---
 t5x/optimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/optimizers.py b/t5x/optimizers.py
index 7c0273a..1c4c313 100644
--- a/t5x/optimizers.py
+++ b/t5x/optimizers.py
@@ -284,7 +284,9 @@ class OptaxStatePartitionRules:
           inner_opt_state=OptaxStatePartitionRules.derive_optax_logical_axes(  # pylint: disable=line-too-long
               state.inner_opt_state, params_axes
           ),
-          acc_grads=params_axes,
+          acc_grads=OptaxStatePartitionRules.derive_params_axes(
+              state.acc_grads, params_axes
+          ),
       ),
       optax.ApplyIfFiniteState: (
           lambda state, params_axes: optax.ApplyIfFiniteState(
-- 
2.43.0


From 969f3d1c35f06faf5403a3c0acd265f13c4a964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 39/53] fix: apply transformations that move values when
 restoring with Orbax

The structure of an Orbax checkpoint no longer consists of placeholders that
name the stored values, so every value was read from the name it has in the
restored state: an assignment map (or any transformation that renames) was
silently ignored. Keep the stored name with the metadata of each value.
---
 t5x/checkpoints.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index e405d8e..0929202 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2095,6 +2095,13 @@ def _construct_orbax_param_infos(
   return jax.tree_util.tree_map(_OrbaxParamInfo, param_names, mesh_axes)
 
 
+@dataclasses.dataclass
+class _StoredValueMetadata(ocp.metadata.tree.ValueMetadataEntry):
+  """Metadata of a value, together with the name it is stored under."""
+
+  name: str = ''
+
+
 def _construct_orbax_restoration_transforms(
     state_handler: ocp.PyTreeCheckpointHandler,
     step: int,
@@ -2114,6 +2121,14 @@ def _construct_orbax_restoration_transforms(
   structure, _ = state_handler._get_internal_metadata(  # pylint: disable=protected-access
       state_subdir
   )
+  # Transformations may move values; remember where each one is stored.
+  structure = jax.tree.map(
+      lambda x, name: _StoredValueMetadata(**vars(x), name=name)
+      if isinstance(x, ocp.metadata.tree.ValueMetadataEntry)
+      else x,
+      structure,
+      ocp.tree.get_param_names(structure, include_empty_nodes=False),
+  )
   # Empty entries (e.g. states of parameters without an optimizer) have metadata
   # but no array to read.
   structure = jax.tree.map(
@@ -2170,8 +2185,8 @@ def _construct_orbax_restoration_transforms(
     )
 
     def _modify_orbax_param_info(info, value):
-      if ocp.utils.leaf_is_placeholder(value):
-        name = ocp.utils.name_from_leaf_placeholder(value)
+      if isinstance(value, _StoredValueMetadata):
+        name = value.name
         return dataclasses.replace(
             info, name=name, path=directory_ / name, parent_dir=directory_
         )
-- 
2.43.0


From 7b836975eac8f0328358b9c92696a9bc18743cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 40/53] fix: apply the assignment map once when evaluation is
 resumed

Resuming the evaluation of all checkpoints copied the restore configuration
with dataclasses.replace, which puts the assignment map into
state_transformation_fns again: checkpoints evaluated after a restart had
their parameters remapped twice.
---
 t5x/eval.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/t5x/eval.py b/t5x/eval.py
index 55edd1d..ff199de 100644
--- a/t5x/eval.py
+++ b/t5x/eval.py
@@ -20,6 +20,7 @@ r"""Runs training- and inference-evaluation on a T5X-compatible model.
 
 # pyformat: enable
 # pylint:enable=line-too-long
+import copy
 import dataclasses
 import functools
 import os
@@ -356,7 +357,9 @@ def evaluate(
         '\n '.join(_sorted_ckpt_paths(ckpt_paths & evaluated_ckpt_paths)),
     )
     ckpt_paths = _sorted_ckpt_paths(ckpt_paths - evaluated_ckpt_paths)
-    restore_cfg = dataclasses.replace(restore_checkpoint_cfg, mode='specific')
+    # `dataclasses.replace` would add the assignment map a second time.
+    restore_cfg = copy.copy(restore_checkpoint_cfg)
+    restore_cfg.mode = 'specific'
 
   else:
     restore_cfg, ckpt_paths = utils.get_first_valid_restore_config_and_paths(
-- 
2.43.0


From e111b1675701ac58848e146a4402e97a5e8bfd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 41/53] fix: save the initial checkpoint before peeking at the
 first batch

The state of the dataset saved with the initial checkpoint included the batch
that had been peeked at (depending on how fast the input pipeline was), so a
run that resumed from the initial checkpoint skipped a batch.
---
 t5x/train.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/t5x/train.py b/t5x/train.py
index fb1c84f..95d6a01 100644
--- a/t5x/train.py
+++ b/t5x/train.py
@@ -383,10 +383,6 @@ def train(
         )
     )
 
-  # Start warming up the input pipeline in the background. This must happen
-  # after input pipeline checkpoints were restored.
-  first_batch_ready = train_iter.peek_async()
-
   # 3. If no checkpoint to restore, init from scratch.
   train_state = train_state or train_state_initializer.from_scratch(init_rng)
   train_state_axes = train_state_initializer.train_state_axes
@@ -619,6 +615,11 @@ def train(
     _cleanup()
     return host_step, trainer.train_state
 
+  # Start warming up the input pipeline in the background. This must happen
+  # after input pipeline checkpoints were restored, and after the initial
+  # checkpoint was saved: the peeked batch is not part of the saved state.
+  first_batch_ready = train_iter.peek_async()
+
   # If we take manual control of the garbage collector, we need to disable it
   # before starting training.
   if gc_period:
-- 
2.43.0


From fc8dbc38a89a9460d1f5bf887c113dadc7dae59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 42/53] fix: leave the dataset alone when Orbax restores with
 restore_dataset=False

With SaveCheckpointConfig.save_dataset the checkpoint manager holds the dataset
iterator, and restoring from any other (e.g. pretrained) checkpoint also tried
to restore it: it failed if that checkpoint had no dataset state and replaced the
state of the dataset by the one of another training otherwise.
---
 t5x/checkpoints.py | 8 ++++++--
 t5x/utils.py       | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/t5x/checkpoints.py b/t5x/checkpoints.py
index 0929202..ce20868 100644
--- a/t5x/checkpoints.py
+++ b/t5x/checkpoints.py
@@ -2416,6 +2416,7 @@ class OrbaxCheckpointManagerInterface:
       fallback_state: Optional[Mapping[str, Any]] = None,
       state_transformation_fns: Sequence[RestoreStateTransformationFn] = (),
       lazy_parameters: Optional[bool] = False,
+      restore_dataset: bool = True,
   ) -> train_state_lib.TrainState:
     """Restores a TrainState from the given step or path.
 
@@ -2433,6 +2434,8 @@ class OrbaxCheckpointManagerInterface:
         after reading.
       lazy_parameters: whether to load the parameters as LazyArrays to preserve
         memory.
+      restore_dataset: whether to restore the dataset iterator of this manager,
+        if it has one.
 
     Returns:
       The restored train state.
@@ -2515,12 +2518,13 @@ class OrbaxCheckpointManagerInterface:
             legacy_transform_fn=transform_fn,
         ),
     }
-    if self._should_write_dataset_ckpt:
+    restore_dataset = restore_dataset and self._should_write_dataset_ckpt
+    if restore_dataset:
       args[_DATASET_KEY] = DatasetArgs(self._dataset_iterator)
     args = ocp.args.Composite(**args)
     restored = self._manager.restore(step, args=args, directory=directory)
     state_dict = restored[_STATE_KEY]
-    if self._should_write_dataset_ckpt:
+    if restore_dataset:
       self._dataset_iterator = restored[_DATASET_KEY]
 
     # Merge restored state dict with fallback state to fill in any remaining
diff --git a/t5x/utils.py b/t5x/utils.py
index 0ff7c06..ae613dc 100644
--- a/t5x/utils.py
+++ b/t5x/utils.py
@@ -518,6 +518,7 @@ def restore(
         path=path,
         state_transformation_fns=state_transformation_fns,
         fallback_state=fallback_state,
+        restore_dataset=restore_cfg.restore_dataset,
     )
     restored_checkpoints.append(restored)
 
-- 
2.43.0


From 31abe4d421e4c5a51046ef0f7de7a3a2bf525991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 43/53] fix: let an InteractiveModel resume from its output
 directory

Without a checkpoint path the checkpoint manager was created without a restore
configuration, so a second session on the same directory failed.
---
 t5x/interactive_model.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index ea453d7..c3bc834 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -201,18 +201,6 @@ class InteractiveModel(abc.ABC):
         partitioner=self._partitioner,
     )
 
-    # Initialize checkpoint manager.
-    self._checkpoint_manager = utils.LegacyCheckpointManager(
-        save_cfg=self._save_checkpoint_cfg,
-        restore_cfg=self._restore_checkpoint_cfg,
-        train_state_shape=(
-            self._train_state_initializer.global_train_state_shape
-        ),
-        partitioner=self._partitioner,
-        ds_iter=None,
-        model_dir=self._output_dir,
-    )
-
     # --------------------------------------------------------------------------
     # Restore a model from a checkpoint or from scratch.
     # --------------------------------------------------------------------------
@@ -255,6 +243,17 @@ class InteractiveModel(abc.ABC):
     valid_restore_cfg, restore_paths = (
         utils.get_first_valid_restore_config_and_paths(restore_cfgs)
     )
+    # Initialize checkpoint manager.
+    self._checkpoint_manager = utils.LegacyCheckpointManager(
+        save_cfg=self._save_checkpoint_cfg,
+        restore_cfg=valid_restore_cfg,
+        train_state_shape=(
+            self._train_state_initializer.global_train_state_shape
+        ),
+        partitioner=self._partitioner,
+        ds_iter=None,
+        model_dir=self._output_dir,
+    )
     self._train_state = self._checkpoint_manager.restore(
         restore_paths,
         valid_restore_cfg,
-- 
2.43.0


From 3a2ed007e7171e5aa58f5d272a5ccd6e2a1972e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 44/53] fix: evaluate an InteractiveModel with score metrics
 only

---
 t5x/interactive_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index c3bc834..baeaafc 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -783,6 +783,7 @@ class InteractiveModel(abc.ABC):
 
     # Get predictions.
     predictions = []
+    aux_values = {}
     if predict_with_aux_metric_fns or predict_metric_fns:
       predictions, aux_values = self.infer_with_preprocessors(
           mode=InferenceType.PREDICT_WITH_AUX,
-- 
2.43.0


From eb6b2f9decfcdaf158579cfbc6ba8eae3414df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 45/53] fix: repeat training batches up to the requested number
 of steps

---
 t5x/interactive_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index baeaafc..4995601 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -1015,7 +1015,7 @@ def _get_equal_length_batches(
   if isinstance(batches[0], Mapping):
     return [batches for i in range(length)]
   if len(batches) < length:
-    batches = batches * (length // len(batches))
+    batches = batches * -(-length // len(batches))
   # If multiple batches are provided, only use the first `length` batches.
   logging.warning(
       "We will only use the first %s batches provided for training.", length
-- 
2.43.0


From 3601e21ccdb760688171465add4fa16ee41f1d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:57 +0000
Subject: [PATCH 46/53] fix: accept a single inference or evaluation batch in
 train_loop

---
 t5x/interactive_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t5x/interactive_model.py b/t5x/interactive_model.py
index 4995601..5bbe966 100644
--- a/t5x/interactive_model.py
+++ b/t5x/interactive_model.py
@@ -866,6 +866,10 @@ class InteractiveModel(abc.ABC):
     """
     # Ensure all batches are `num_steps` in length
     train_batches = _get_equal_length_batches(train_batches, num_steps)
+    predict_batches, score_batches, eval_batches = (
+        [batches] if batches and isinstance(batches[0], Mapping) else batches
+        for batches in (predict_batches, score_batches, eval_batches)
+    )
 
     predictions = None
     scores = None
-- 
2.43.0


From 3a20fe4181451af0a66546c5e3fcc0eba1ca9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:56 +0000
Subject: [PATCH 47/53] fix: give the decoder preprocessor's input mask a row
 per example

---
 t5x/export_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index 5acc0ed..bced1ad 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -776,7 +776,7 @@ def create_decoder_preprocessor(
       inputs_width = tf.expand_dims(inputs_length, -1)
       inputs_width_add_pos = inputs_width + 1
     else:
-      inputs_width = tf.zeros(tf.shape(decoder_tokens)[0], dtype=tf.int32)
+      inputs_width = tf.zeros([tf.shape(decoder_tokens)[0], 1], dtype=tf.int32)
       inputs_width_add_pos = inputs_width
 
     def featurize(text, length):
-- 
2.43.0


From b6f7a788ca692b4e81fe736a4e22ca29eeacc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:59 +0000
Subject: [PATCH 48/53] fix: export parameters of an unspecified dtype as they
 were saved

---
 t5x/export_lib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index bced1ad..a506189 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -451,7 +451,11 @@ def load_params_from_checkpoint(
         state_transformation_fns=(
             restore_checkpoint_cfg.state_transformation_fns
         ),
-        restore_dtype=jnp.dtype(restore_checkpoint_cfg.dtype),
+        restore_dtype=(
+            jnp.dtype(restore_checkpoint_cfg.dtype)
+            if restore_checkpoint_cfg.dtype
+            else None
+        ),
     )
     return frozen_dict.freeze(variables['target'])
 
-- 
2.43.0


From e3e99cbdfe270689a0a4de1f698c7e2a9af48ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:07 +0000
Subject: [PATCH 49/53] fix: consider the whole generated text for a warmup
 example

---
 t5x/export_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/export_lib.py b/t5x/export_lib.py
index a506189..0f15955 100644
--- a/t5x/export_lib.py
+++ b/t5x/export_lib.py
@@ -1249,7 +1249,7 @@ def generate_examples_with_sequence_lengths(
             ' are valid in the vocabulary, or increase'
             ' chars_per_token_upper_bound.'
         )
-      for start_index in range(len(all_ids) - num_tokens):
+      for start_index in range(len(all_ids) - num_tokens + 1):
         # Truncating may return an empty string for some IDs, for example
         # vocabulary.decode([3]), so search for an ID subarray whose
         # resulting string actually has the correct length.
-- 
2.43.0


From 1cc8e004f7ed0a77debdbb6bbc77e596ed3f5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:46 +0000
Subject: [PATCH 50/53] fix: predict without early exits and without returning
 all decodes

---
 t5x/contrib/calm/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 1d47577..0fb9efb 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -1028,8 +1028,10 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           'confidences': confidences,
       }
     else:
+      if self.apply_early_inference:
+        exits, confidences = exits[:, -1, :], confidences[:, -1, :]
       return decodes[:, -1, :], {
           'scores': scores[:, -1],
-          'exits': exits[:, -1, :],
-          'confidences': confidences[:, -1, :],
+          'exits': exits,
+          'confidences': confidences,
       }
-- 
2.43.0


From b379fc77bac14a7dd6f34a5f387cae44842296a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:34 +0000
Subject: [PATCH 51/53] fix: propagate the state of the exit layer to the
 skipped layers

---
 t5x/contrib/calm/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 0fb9efb..622ff9b 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -840,7 +840,7 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           raw_inputs,  # only needed for encoder padding mask
           flat_ids,
           flat_ids,
-          decoder_hidden,
+          new_decoder_hidden,
       )
       new_flat_cache = new_vars['cache']
 
-- 
2.43.0


From 17d76f444c6c71ca063836ca06ec15c46fa3edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:46 +0000
Subject: [PATCH 52/53] fix: run exactly the skipped layers for the oracle
 cache

---
 t5x/contrib/calm/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index 622ff9b..c80d100 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -812,7 +812,7 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
       # Run the rest of the layers to compute the real cache (oracle setting).
       def cond_fn_complete_run(state):
         _, _, _, _, _, layer, _ = state
-        return layer < num_layers - 1
+        return layer < num_layers
 
       post_exit_state = (
           flat_logits,
@@ -820,7 +820,7 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
           new_flat_cache,
           conf,
           interval,
-          layer - self.exit_interval,
+          layer,
           new_meta_score,
       )
       _, _, new_flat_cache, _, _, _, _ = lax.while_loop(
-- 
2.43.0


From 0632108333becb720c1896de62d2fb86ec1c20de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:17 +0000
Subject: [PATCH 53/53] fix: adjust the exit threshold by the decoded position

---
 t5x/contrib/calm/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/t5x/contrib/calm/models.py b/t5x/contrib/calm/models.py
index c80d100..3d8d7a1 100644
--- a/t5x/contrib/calm/models.py
+++ b/t5x/contrib/calm/models.py
@@ -544,10 +544,12 @@ class EncoderDecoderModel(models.EncoderDecoderModel):
       raw_inputs: jnp.ndarray,
       max_decode_length: int,
       conf_threshold: float,
-      pos: int = 0,
+      pos: Optional[Union[int, jnp.ndarray]] = None,
   ) -> Tuple[jnp.ndarray, Mapping[str, jnp.ndarray], jnp.ndarray, jnp.ndarray]:
     """Token slice to logits from decoder model with early exit mechanism."""
 
+    if pos is None:
+      pos = decoding_state.cur_index
     num_layers = self.decoder_layers
     flat_ids: jnp.ndarray = decoding_state.cur_token
     flat_cache: Mapping[str, jnp.ndarray] = decoding_state.cache
-- 
2.43.0

