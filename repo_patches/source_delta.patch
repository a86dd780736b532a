From 9a8f5e862eecc984de6e8fbe96aabaea96fef691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 01/17] fix: give ACTStates.error_mode a default

The builder (and every other caller) constructs ACTStates without an
error mode, so ControllerBuilder.new_builder raised TypeError on every call
and no controller could be created at all. None flattens to no leaves, so
states stay jit compatible.
---
 src/jax_act/core/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index bfcd207..99c523e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -171,7 +171,7 @@ class ACTStates:
     accumulators: Dict[str, PyTree]
     updates: Dict[str, Optional[PyTree]]
     depression_constant: float
-    error_mode: str
+    error_mode: Optional[str] = None
 
 # We define the functions to represent states as a pytree,
 # and then register the tree.
-- 
2.43.0


From 8d26a0f311cec308d69214b87b3548bae6420003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 02/17] fix: ACTStates.replace of the depression constant and
 error mode

replace called validators that do not exist, so replacing either field
raised AttributeError.
---
 src/jax_act/core/states.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 99c523e..62a0e6e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -143,15 +143,8 @@ class ACTStates:
         updates = self.updates if updates is None else updates
         defaults = self.defaults if defaults is None else defaults
 
-        if depression_constant is None:
-            depression_constant = self.depression_constant
-        else:
-            depression_constant = self.validate_depression_constant(depression_constant)
-        if error_mode is None:
-            error_mode = self.error_mode
-        else:
-            error_mode = self.validate_error_mode(error_mode)
-
+        depression_constant = self.depression_constant if depression_constant is None else depression_constant
+        error_mode = self.error_mode if error_mode is None else error_mode
 
         return ACTStates(epsilon,
                          iterations,
-- 
2.43.0


From 394b38b3ef539abd00b221a061416fd6b0c60b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 03/17] fix: viewer transforms the cached updates, not the
 defaults, into updates

Any transform or mask replaced the viewer's pending updates with the
transformed defaults.
---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5cfb5bb..5141c82 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -116,7 +116,7 @@ class ACTViewer(Immutable):
 
             updates = {name: jax.tree_util.tree_map(update_applier, value)
                         for name, value
-                        in self.defaults.items()}
+                        in self.updates.items()}
 
         except Exception as err:
             msg = "An issue occurred in using the provided function"
-- 
2.43.0


From 013c5ab2bbc02142f564bb16dda23e9d815199e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 04/17] fix: check the returned controller for uncommitted
 updates

run_iteration validated the controller that was passed in, so a layer that
returned a controller with uncommitted updates was never reported.
---
 src/jax_act/layers/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/layers/core.py b/src/jax_act/layers/core.py
index 58aa6f7..896b93d 100644
--- a/src/jax_act/layers/core.py
+++ b/src/jax_act/layers/core.py
@@ -302,7 +302,7 @@ class ContractValidationWrapper:
             new_controller, _ = update
             self._validate_is_controller(new_controller, context_message)
             self._validate_is_novel_controller(controller, new_controller, context_message)
-            self._validate_all_act_updates_committed(controller, context_message)
+            self._validate_all_act_updates_committed(new_controller, context_message)
 
         self._execute_validation(validate)
         return update
-- 
2.43.0


From 633a019aa5c9c0d05bdb16b7bc4f305a198e8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 05/17] fix: reset_batches on accumulators that are pytrees

The batch selector was broadcast against the whole accumulator tree rather
than its leaf, which raised AttributeError for anything but a bare tensor.
---
 src/jax_act/core/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 94a4456..bde8c1a 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -396,7 +396,7 @@ class ACT_Controller(Immutable):
                 #
                 # Then reset to defaults where appropriate and return.
                 broadcastable_selector = utils.setup_left_broadcast(unhalted_batch_selector,
-                                                                    accumulator)
+                                                                    accumulator_leaf)
                 broadcastable_selector = jnp.broadcast_to(broadcastable_selector, accumulator_leaf.shape)
                 return jax.lax.select(broadcastable_selector,
                                      accumulator_leaf,
-- 
2.43.0


From 12bb3798aa834921cadab764526f26b2c9b4c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 06/17] fix: editor rejects replacement trees with missing
 leaves

None counts as a leaf in the structure comparison but as nothing when
leaves are compared, so set_accumulator(name, None) and trees with None in
place of tensors passed validation in standard mode.
---
 src/jax_act/core/tensoreditor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 8a1741b..5e0783a 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -252,6 +252,15 @@ class TensorEditor(Immutable):
         original_leaves = jax.tree_util.tree_leaves(original)
         new_leaves = jax.tree_util.tree_leaves(new)
 
+        # None is not a leaf, so a tree with entries missing would otherwise
+        # go unnoticed by the pairwise comparison below.
+        msg = f"""
+        The original had {len(original_leaves)} tensor leaves.
+        However, the replacement has {len(new_leaves)}. These did not match.
+        """
+        msg = utils.format_error_message(msg, info)
+        checkify.check(len(original_leaves) == len(new_leaves), msg)
+
         for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):
             # Check if leaf has same shape
             msg = f"""
-- 
2.43.0


From d048ae34a249d994cdd07a5458fde2a7d8ba272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 07/17] fix: editor rejects NaN as a probability

Every comparison with NaN is false, so NaN passed the check that no element
is below zero or above one.
---
 src/jax_act/core/tensoreditor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 5e0783a..93a6be8 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -182,14 +182,14 @@ class TensorEditor(Immutable):
         A tensor representing probabilities had elements less than zero
         """
         msg = utils.format_error_message(msg, info)
-        checkify.check(~jnp.any(tensor < 0), msg)
+        checkify.check(jnp.all(tensor >= 0), msg)
 
         # Check high
         msg = """
         A tensor representing probabilities had elements greater than one
         """
         msg = utils.format_error_message(msg, info)
-        checkify.check(~jnp.any(tensor > 1.0), msg)
+        checkify.check(jnp.all(tensor <= 1.0), msg)
     @staticmethod
     def _validate_is_natural_numbers(tensor: jnp.ndarray,
                                      context: str):
-- 
2.43.0


From 89475617715b82f880550f8ec861a9a5fada3aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:52 +0000
Subject: [PATCH 08/17] fix: accumulators with another dtype than the
 probabilities

define_accumulator_by_shape documents a dtype parameter, but iterate_act
raised on any accumulator narrower than the probabilities, because the
weighted update was promoted and could no longer be selected against the
accumulator.
---
 src/jax_act/core/controller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index bde8c1a..4ef5211 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -221,7 +221,11 @@ class ACT_Controller(Immutable):
         #
         # We will often need to unsqueeze on the last dimension to make this
         # happen. This section accomplishes this.
+        #
+        # The accumulator may have a different floating dtype than the
+        # probabilities, and has to keep it.
         halted_batches = self.halted_batches
+        halting_probabilities = halting_probabilities.astype(accumulator_value.dtype)
         halting_probabilities = utils.setup_left_broadcast(halting_probabilities, accumulator_value)
         halted_batches = utils.setup_left_broadcast(halted_batches, accumulator_value)
         halted_batches = jnp.broadcast_to(halted_batches, accumulator_value.shape)
-- 
2.43.0


From 22d45f5d77f42f76c214ef3bca7541d1a46a3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:25 +0000
Subject: [PATCH 09/17] fix: elements of probability one are halted in every
 dtype

With a core dtype of float16 or bfloat16 the default threshold rounds to
one, which no probability is above: elements never halted, and kept
counting iterations and overwriting residuals after their mass ran out.
---
 src/jax_act/core/controller.py |  5 +++--
 src/jax_act/core/utils.py      | 16 ++++++++++++++++
 src/jax_act/core/viewer.py     |  2 +-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 4ef5211..e0021d9 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -117,7 +117,7 @@ class ACT_Controller(Immutable):
         return 1-self.state.epsilon
     @property
     def halted_batches(self)->jnp.ndarray:
-        return self.probabilities > self.halt_threshold
+        return utils.is_halted(self.probabilities, self.halt_threshold)
 
     @property
     def is_completely_halted(self)->bool:
@@ -161,7 +161,8 @@ class ACT_Controller(Immutable):
         # something that is going to be halted, but are not
         # currently halted, will halt in this iteration.
 
-        will_be_halted = (halting_probabilities + self.probabilities) > self.halt_threshold
+        will_be_halted = utils.is_halted(halting_probabilities + self.probabilities,
+                                         self.halt_threshold)
         newly_halting = will_be_halted & ~self.halted_batches
 
         # Master residuals are updated only the round that we
diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 8ab623c..a7bf5b8 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -40,6 +40,22 @@ def jit_and_checkify(function: Callable)->Callable:
         return output
     return checkify_wrapper
 
+def is_halted(probabilities: jnp.ndarray, halt_threshold: float)->jnp.ndarray:
+    """
+    Tests which cumulative probabilities are considered halted.
+
+    They are the ones above the halting threshold. In a low precision dtype, or
+    with a tiny epsilon, the threshold itself can round to one, which no
+    probability is above: so a probability of one is always halted.
+
+    :param probabilities: The cumulative probabilities
+    :param halt_threshold: The probability above which a batch is halted
+    :return: A bool tensor. True means halted
+    """
+    dtype = jnp.result_type(probabilities, float)
+    largest_below_one = 1 - float(jnp.finfo(dtype).epsneg)
+    return probabilities > jnp.minimum(halt_threshold, largest_below_one)
+
 def can_right_broadcast(array_a: jnp.ndarray,
                         array_b: jnp.ndarray
                         )->bool:
diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5141c82..a361806 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -78,7 +78,7 @@ class ACTViewer(Immutable):
         return 1-self.state.epsilon
     @property
     def halted_batches(self)->jnp.ndarray:
-        return self.probabilities > self.halt_threshold
+        return utils.is_halted(self.probabilities, self.halt_threshold)
 
     #
     def transform(self,
-- 
2.43.0


From c5aca12027ca22f46311ff39cdabe1a1e985df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 10/17] fix: an empty collection only broadcasts to the same
 empty collection

broadcast_pytree_shape gave an empty tuple the structure of any other
leafless tree, and failed with an internal assertion where the target had
leaves, which kept execute_binary_operator from trying the other direction.
---
 src/jax_act/core/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index a7bf5b8..b3a08bc 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -502,6 +502,16 @@ def _replicate_leaves(source_treedef: PyTreeDef,
         if _is_empty_collection(source_treedef):
             # Bugfix. Collections that are currently empty will be identified
             # as leaves, but not displaced during flatten. We skip those.
+            if source_treedef != target_treedef:
+                msg = f"""
+                Two trees could not be broadcast together due to mismatched
+                tree shape.
+
+                The source tree had the empty collection {source_treedef}.
+                However, the target tree had {target_treedef} in the same place.
+                """
+                msg = format_error_message(msg, context_message)
+                raise RuntimeError(msg)
             return [], source_leaves_queue
 
         node_to_repeat = source_leaves_queue.pop(0)
-- 
2.43.0


From 13d64525534e96b5ed7ac7f07c843b93ace4b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 11/17] fix: iterating leaves the probability of a halted
 element alone

An element halted by an edited probability or epsilon holds less than one;
the next iteration raised it to one although its accumulators, residual
and iterations stayed frozen.
---
 src/jax_act/core/controller.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index e0021d9..5c6eff9 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -178,6 +178,13 @@ class ACT_Controller(Immutable):
 
         halting_probabilities = jax.lax.select(will_be_halted, raw_residuals, halting_probabilities)
 
+        # Something already halted gets nothing more, like in its accumulators. Its
+        # probability is not always one, as an editor may have set it or the epsilon.
+
+        halting_probabilities = jax.lax.select(self.halted_batches,
+                                               jnp.zeros_like(halting_probabilities),
+                                               halting_probabilities)
+
         # Finally, cumulative probabilities are updated to contain the sum
         # of the halting probabilities and the current cumulative probabilities
 
-- 
2.43.0


From a19326d38be7b9c52df673323fbf5209178fb91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 12/17] fix: masking a non-finite value gives zero

---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index a361806..faeea19 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -155,7 +155,7 @@ class ACTViewer(Immutable):
 
         def update_function(tensor: jnp.ndarray)->jnp.ndarray:
             broadcastable_mask = utils.setup_left_broadcast(mask, tensor)
-            return broadcastable_mask*tensor
+            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))
 
         return self.transform(update_function)
 
-- 
2.43.0


From 256e4724e626375192c574e636ac8b8f08195e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 13/17] fix: builder refuses NaN as epsilon

---
 src/jax_act/core/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/builder.py b/src/jax_act/core/builder.py
index 440ebc3..d9a5337 100644
--- a/src/jax_act/core/builder.py
+++ b/src/jax_act/core/builder.py
@@ -430,7 +430,7 @@ class ControllerBuilder(Immutable):
             msg = "dtype of probabilities core must be floating"
             msg = utils.format_error_message(msg, context_error_message)
             raise ValueError(msg)
-        if (epsilon >= 1.0) or (epsilon <= 0.0):
+        if not 0.0 < epsilon < 1.0:
             msg = "epsilon insane: Not between 0 and 1"
             msg = utils.format_error_message(msg, context_error_message)
             raise ValueError(msg)
-- 
2.43.0


From 30560ee1e906cff61b7ff5c20042f1c065391dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 14/17] fix: broadcast pytrees with custom nodes whose
 auxiliary data is not a sequence of keys

---
 src/jax_act/core/utils.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index b3a08bc..c573ccf 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -424,26 +424,22 @@ def _validate_children_descent(source_treenode: PyTreeDef,
         """
         msg = format_error_message(msg, context_string)
         raise RuntimeError(msg)
-    if source_keys is not None:
-        # We are working with a node that has keys, like a dictionary
-        #
-        # We know at this point source and target keys will be the same length,
-        # and are from the same kind of object
-        for source_key, target_key in zip(source_keys, target_keys):
-            if source_key != target_key:
-                msg = f"""
-                Two trees could not be broadcast together due to mismatched 
-                tree shape. 
-                
-                A key holding a child on the source node, named '{source_key}',
-                was not also found in the same position on target node, instead found
-                '{target_key}'
-                
-                Dictionaries and other ordered objects must be in the same order for both
-                trees. Did you define two dictionaries with the keys in differing orders?
-                """
-                msg = format_error_message(msg, context_string)
-                raise RuntimeError(msg)
+    if source_keys != target_keys:
+        # We are working with a node that has keys, like a dictionary, or
+        # with a custom node that has some other data attached to it.
+        msg = f"""
+        Two trees could not be broadcast together due to mismatched 
+        tree shape. 
+        
+        The keys holding the children on the source node were '{source_keys}'.
+        The ones in the same position on the target node were instead
+        '{target_keys}'
+        
+        Dictionaries and other ordered objects must be in the same order for both
+        trees. Did you define two dictionaries with the keys in differing orders?
+        """
+        msg = format_error_message(msg, context_string)
+        raise RuntimeError(msg)
 
 
 
-- 
2.43.0


From 0ffc5afc1e30ef30ff7f0166e60f98cf6e459a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 15/17] fix: Flax ACT layers could not use modules that define
 their parts inline

---
 src/jax_act/frameworks/flax.py | 13 +++++++++++++
 src/jax_act/layers/act.py      | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/jax_act/frameworks/flax.py b/src/jax_act/frameworks/flax.py
index 7bc801f..b9e23d3 100644
--- a/src/jax_act/frameworks/flax.py
+++ b/src/jax_act/frameworks/flax.py
@@ -2,6 +2,7 @@ import textwrap
 
 from flax import linen as nn
 from src.jax_act.layers.act import AbstractACTTemplate
+from src.jax_act.layers.core import ContractValidationWrapper
 from src.jax_act import ACT_Controller, PyTree
 
 class FlaxACTLayer(AbstractACTTemplate, nn.Module):
@@ -44,3 +45,15 @@ class FlaxACTLayer(AbstractACTTemplate, nn.Module):
         # parameters are not yet immutable.
         if self.is_mutable_collection("params"):
             self.run_iteration(controller, state)
+
+    def _while_loop(self, layer, wrapped_state):
+        # Flax modules that define their parts inline cannot be called from
+        # inside a plain jax loop. The lifted loop of flax allows it.
+        def is_not_complete(module, state):
+            return self._is_act_not_complete(state)
+
+        def run_layer(module, state):
+            module_layer = ContractValidationWrapper(module, layer.check_errors)
+            return self._while_loop_adapter_factory(module_layer)(state)
+
+        return nn.while_loop(is_not_complete, run_layer, self, wrapped_state)
diff --git a/src/jax_act/layers/act.py b/src/jax_act/layers/act.py
index e595fe7..2a213ba 100644
--- a/src/jax_act/layers/act.py
+++ b/src/jax_act/layers/act.py
@@ -220,6 +220,18 @@ class AbstractACTTemplate(AbstractControllerContract):
         return run_layer_adapter
 
 
+    def _while_loop(self,
+                    layer: 'ContractValidationWrapper',
+                    wrapped_state: Tuple[ACT_Controller, PyTree, ACTMetaData]
+                    )->Tuple[ACT_Controller, PyTree, ACTMetaData]:
+        """
+        Runs the loop itself. A framework may override this, if its
+        layers cannot be called from inside a plain jax loop.
+        """
+        return jax.lax.while_loop(self._is_act_not_complete,
+                                  self._while_loop_adapter_factory(layer),
+                                  wrapped_state)
+
     def execute_act(self,
                     initial_state: PyTree,
                     depression_constant: float = 1.0,
@@ -282,9 +294,6 @@ class AbstractACTTemplate(AbstractControllerContract):
         self.setup_lazy_parameters(controller, initial_state)
 
         wrapped_state = (controller, initial_state, metadata)
-        run_layer = self._while_loop_adapter_factory(act_layer)
-        controller, final_state, _ = jax.lax.while_loop(self._is_act_not_complete,
-                                                      run_layer,
-                                                      wrapped_state)
+        controller, final_state, _ = self._while_loop(act_layer, wrapped_state)
         return controller, final_state
 
-- 
2.43.0


From 462df8b4d0ab545240a5df041b96256f23141170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:59 +0000
Subject: [PATCH 16/17] fix: arrays of different shapes were reported as equal

---
 src/jax_act/core/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index c573ccf..b704dea 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -317,7 +317,10 @@ def are_pytrees_equal(tree_one: PyTree, tree_two: PyTree, use_allclose: bool = T
         if type(leaf_one) != type(leaf_two):
             return False
         elif isinstance(leaf_one, (jnp.ndarray, np.ndarray)):
-            if use_allclose:
+            # Comparing broadcasts, but arrays of different shape are not equal
+            if leaf_one.shape != leaf_two.shape:
+                return False
+            elif use_allclose:
                 return jnp.allclose(leaf_one, leaf_two)
             else:
                 return jnp.all(leaf_one == leaf_two)
-- 
2.43.0


From 06935c2b6f0aed69c48026f1c9de3c68f94f3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:44 +0000
Subject: [PATCH 17/17] fix: dataclasses among the accumulators became
 dictionaries when a controller was flattened

---
 src/jax_act/core/states.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 62a0e6e..b24c90e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -6,7 +6,7 @@ import textwrap
 
 import jax
 from enum import Enum
-from dataclasses import dataclass, asdict
+from dataclasses import dataclass, fields
 from typing import Dict, Optional, Any, Tuple, Callable, List
 from jax import numpy as jnp
 from jax.experimental import checkify
@@ -173,7 +173,8 @@ class ACTStates:
 # the keys from the state, and doing the reverse to put
 # everything back together.
 def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
-    state = asdict(state)
+    # Not asdict: that would also turn dataclasses among the accumulators into dictionaries
+    state = {field.name: getattr(state, field.name) for field in fields(state)}
 
     aux_out = []
     values = []
-- 
2.43.0

