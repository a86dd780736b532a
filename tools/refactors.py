"""
Behaviour preserving rewritings of the code under test. Each entry is (name, [(file, old, new), ...]).
Used by tools/silence.py: every check has to stay quiet on each of them.
"""
C = "src/jax_act/core/controller.py"
U = "src/jax_act/core/utils.py"
V = "src/jax_act/core/viewer.py"
S = "src/jax_act/core/states.py"
B = "src/jax_act/core/builder.py"
T = "src/jax_act/core/tensoreditor.py"
A = "src/jax_act/layers/act.py"
L = "src/jax_act/layers/core.py"
F = "src/jax_act/frameworks/flax.py"
I = "src/jax_act/core/immutable.py"

ONE = [
    # Controller: where instead of select, halted computed once, helpers renamed and extracted
    (C, "        residuals = jax.lax.select(newly_halting, raw_residuals, self.residuals)", "        residuals = jnp.where(newly_halting, raw_residuals, self.residuals)"),
    (C, "        halting_probabilities = jax.lax.select(will_be_halted, raw_residuals, halting_probabilities)\n", "        weights = jnp.where(will_be_halted, raw_residuals, halting_probabilities)\n"),
    (C, "        halting_probabilities = jax.lax.select(self.halted_batches,\n                                               jnp.zeros_like(halting_probabilities),\n                                               halting_probabilities)\n",
        "        weights = jnp.where(self.halted_batches, jnp.zeros_like(weights), weights)\n"),
    (C, "        probabilities = self.probabilities + halting_probabilities\n\n        return halting_probabilities, residuals, probabilities", "        return weights, residuals, weights + self.probabilities"),
    (C, "        update = state.updates.copy()\n        update[name] = item\n        new_state = state.replace(updates=update)\n        return ACT_Controller(new_state)",
        "        return type(self).load(state.replace(updates={**state.updates, name: item}))"),
    (C, "        new_iterations = self.iterations + 1\n        iterations = jax.lax.select(self.halted_batches, self.iterations, new_iterations)", "        iterations = self.iterations + (~self.halted_batches).astype(self.iterations.dtype)"),
    (C, "all([self.state.updates[key] is not None for key in self.state.updates])", "None not in [type(u) and (None if u is None else 1) for u in self.state.updates.values()]"),
    (C, "any([self.state.updates[key] is not None for key in self.state.updates])", "not all(update is None for update in self.state.updates.values())"),
    (C, "        new_accumulators = accumulator_value + halting_probabilities * update_value\n        return jax.lax.select(halted_batches, accumulator_value, new_accumulators)",
        "        return jnp.where(halted_batches, accumulator_value, (accumulator_value + halting_probabilities * update_value).astype(accumulator_value.dtype))"),
    (C, "        iterators = self.iterations*unhalted_batch_selector\n        probabilities = self.probabilities*unhalted_batch_selector\n        residuals = self.residuals*unhalted_batch_selector\n",
        "        iterators, probabilities, residuals = [jnp.where(unhalted_batch_selector, item, jnp.zeros_like(item))\n                                               for item in (self.iterations, self.probabilities, self.residuals)]\n"),
    (C, "        for key, value in self.state.updates.items():\n            if value is not None:\n                raise RuntimeError(", "        if self.has_cached_updates:\n                raise RuntimeError("),
    (C, "        for name in self.accumulators.keys():\n            accumulator = self.accumulators[name]\n            default", "        for name, accumulator in sorted(self.accumulators.items()):\n            default"),
    # States
    (S, "        epsilon = self.epsilon if epsilon is None else epsilon\n", "        given = {k: v for k, v in locals().items() if k != 'self' and v is not None}\n        import dataclasses\n        if True:\n            return dataclasses.replace(self, **given)\n        epsilon = self.epsilon if epsilon is None else epsilon\n"),
    # Builder
    (B, "        defaults[name] = definition\n        accumulators[name] = definition\n        updates[name] = None\n", "        for collection, value in ((updates, None), (accumulators, definition), (defaults, definition)):\n            collection[name] = value\n"),
    (B, "            if isinstance(node, list):\n                for item in node:\n                    if not isinstance(item, int):\n                        return False\n                return True\n            return False\n", "            return isinstance(node, list) and all(isinstance(item, int) for item in node)\n"),
    (B, "        probabilities = jnp.zeros(batch_shape, core_dtype)\n        residuals = jnp.zeros(batch_shape, core_dtype)\n        iterations = jnp.zeros(batch_shape, core_dtype)\n", "        probabilities = residuals = iterations = jnp.full(batch_shape, 0.0, core_dtype)\n"),
    (B, "            if batch_dim_length > len(leaf.shape):", "            if leaf.ndim < batch_dim_length:"),
    # Viewer
    (V, "            accumulators = {name: jax.tree_util.tree_map(function, value)\n                            for name, value\n                            in self.accumulators.items()}\n            defaults = {name: jax.tree_util.tree_map(function, value)\n                        for name, value\n                        in self.defaults.items()}\n",
        "            defaults = jax.tree_util.tree_map(function, dict(self.defaults))\n            accumulators = jax.tree_util.tree_map(function, dict(self.accumulators))\n"),
    (V, "            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))", "            broadcastable_mask = jnp.broadcast_to(broadcastable_mask, tensor.shape)\n            return jax.lax.select(broadcastable_mask, jnp.asarray(tensor), jnp.zeros_like(tensor))"),
    (V, "        unhalted_selector = ~self.halted_batches\n        return self.mask_data(unhalted_selector)", "        return self.mask_data(jnp.logical_not(self.halted_batches))"),
    # Editor
    (T, "        return TensorEditor(state, self.error_mode)\n\n    def set_iterations", "        return type(self)(error_mode=self.error_mode, state=state)\n\n    def set_iterations"),
    (T, "        accumulators = self.accumulators.copy()\n        accumulators[name] = value\n        state = self.state.replace(accumulators=accumulators)", "        state = self.state.replace(accumulators=dict(self.accumulators, **{name: value}) if isinstance(name, str) else {**self.accumulators, name: value})"),
    (T, "        checkify.check(jnp.all(tensor >= 0), msg)\n\n        # Check high", "        checkify.check(jnp.logical_not(jnp.any(~(tensor >= 0))), msg)\n\n        # Check high"),
    # Layers
    (A, "        condition = ~controller.is_completely_halted\n        condition = jnp.logical_and(condition, metadata.num_iterations < metadata.max_num_iterations)\n        return condition",
        "        return jnp.logical_and(metadata.num_iterations < metadata.max_num_iterations,\n                               jnp.logical_not(jnp.all(controller.halted_batches)))"),
    (L, "        if self.check_errors is True:\n            function()", "        if self.check_errors is not True:\n            return\n        function()"),
    (L, "            self._validate_is_tuple(update, context_message)\n            self._validate_length_two(update, context_message)\n", "            for check in (self._validate_is_tuple, self._validate_length_two):\n                check(update, context_message)\n"),
    # Utils
    (U, "    def checkify_wrapper(*args, **kwargs):\n        errors, output = jitted_function(*args, **kwargs)\n        errors.throw()\n        return output\n    return checkify_wrapper",
        "    import functools\n    @functools.wraps(function)\n    def run(*args, **kwargs):\n        result = jitted_function(*args, **kwargs)\n        result[0].throw()\n        return result[1]\n    return run"),
    (U, "    for a_dim, b_dim in zip(relevant_a_shape, relevant_b_shape):\n        if (a_dim == 1) or (b_dim == 1):\n            continue\n        if a_dim == b_dim:\n            continue\n        return False\n    return True", "    return all(a_dim == b_dim or 1 in (a_dim, b_dim) for a_dim, b_dim in zip(relevant_a_shape, relevant_b_shape))"),
    (U, "    while len(tensor.shape) < len(target.shape):\n        tensor = tensor[..., None]\n    return tensor", "    return tensor.reshape(tensor.shape + (1,) * (target.ndim - tensor.ndim))"),
    (U, "    new_leaves = []\n    for primary_leaf, aux_leaf in zip(primary_leaves, auxilary_leaves):\n        update = function(primary_leaf, aux_leaf)\n        new_leaves.append(update)\n\n    return jax.tree_util.tree_unflatten(treedef, new_leaves)", "    return treedef.unflatten([function(*pair) for pair in zip(primary_leaves, auxilary_leaves)])"),
    (U, "    child_nodes = jax.tree_util.treedef_children(treedef)\n    leaves = 0\n    for child_node in child_nodes:\n        leaves += _count_linked_leaves(child_node)\n    return leaves", "    return treedef.num_leaves"),
    (U, "                return jnp.all(leaf_one == leaf_two)", "                return not jnp.any(leaf_one != leaf_two)"),
    (F, "        if self.is_mutable_collection(\"params\"):\n            self.run_iteration(controller, state)", "        if not self.is_mutable_collection(\"params\"):\n            return\n        self.run_iteration(controller, state)"),
]

TWO = [
    # The mathematics in another order, everything private renamed
    (C, "        will_be_halted = utils.is_halted(halting_probabilities + self.probabilities,\n                                         self.halt_threshold)\n        newly_halting = will_be_halted & ~self.halted_batches\n",
        "        halted_before = self.halted_batches\n        will_be_halted = utils.is_halted(self.probabilities + halting_probabilities, self.halt_threshold)\n        newly_halting = jnp.logical_and(will_be_halted, jnp.logical_not(halted_before))\n"),
    (C, "        halting_probabilities = jnp.clip(halting_probabilities, 0.0, 1.0)\n", "        halting_probabilities = jnp.minimum(jnp.maximum(halting_probabilities, 0.0), 1.0)\n"),
    (C, "        halting_probabilities = self.depression_constant*halting_probabilities\n", "        halting_probabilities = halting_probabilities * self.depression_constant\n"),
    (C, "        # We will need the halting probabilities and halting batches tensors", "        def aligned(tensor):\n            return utils.setup_left_broadcast(tensor, accumulator_value)\n        # We will need the halting probabilities and halting batches tensors"),
    (C, "        halting_probabilities = utils.setup_left_broadcast(halting_probabilities, accumulator_value)\n        halted_batches = utils.setup_left_broadcast(halted_batches, accumulator_value)\n", "        halting_probabilities, halted_batches = aligned(halting_probabilities), aligned(halted_batches)\n"),
    (C, "        accumulators = self.accumulators.copy()\n        updates = self.state.updates.copy()\n        for name in accumulators.keys():", "        accumulators = {**self.accumulators}\n        updates = {**self.state.updates}\n        for name in list(reversed(list(accumulators))) if False else list(accumulators):"),
    (C, "                updates[name] = None # Resets update slot, so we do not think an update was already done.\n", ""),
    (C, "            updates = updates,\n        )\n        return ACT_Controller(state)", "            updates = dict.fromkeys(updates),\n        )\n        return ACT_Controller(state)"),
    (C, "        return ACTViewer(self.state)", "        return ACTViewer.load(self.save())"),
    (C, "    flat_state, tree_def = jax.tree_util.tree_flatten(state)\n    return flat_state, tree_def\n", "    return jax.tree_util.tree_flatten(state)\n"),
    (U, "    largest_below_one = 1 - float(jnp.finfo(dtype).epsneg)\n    return probabilities > jnp.minimum(halt_threshold, largest_below_one)", "    largest_below_one = 1 - float(jnp.finfo(dtype).epsneg)\n    return jnp.minimum(largest_below_one, halt_threshold) < probabilities"),
    (S, "    aux_out = []\n    values = []\n    for key, value in state.items():\n        value, aux = jax.tree_util.tree_flatten(value)\n\n        aux_out.append(aux)\n        values.append(value)\n    return zip(state.keys(), values), aux_out",
        "    flat = {key: jax.tree_util.tree_flatten(value) for key, value in state.items()}\n    return [(key, leaves) for key, (leaves, _) in flat.items()], [aux for _, aux in flat.values()]"),
    (S, "    values = []\n    for value, tree_def in zip(flat_state, aux_data):\n        value = jax.tree_util.tree_unflatten(tree_def, value)\n        values.append(value)\n    return ACTStates(*values)", "    return ACTStates(*map(jax.tree_util.tree_unflatten, aux_data, flat_state))"),
    (B, "        leaves = jax.tree_util.tree_leaves(pytree)\n        for i, leaf in enumerate(leaves):\n", "        for i, leaf in enumerate(jax.tree_util.tree_flatten(pytree)[0]):\n"),
    (B, "            new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=dtype))", "            new_leaves.append(jnp.full(tuple(leaf), fill, dtype))"),
    (B, "        new_builder = self._define(name, definition, context_err_msg)\n        return new_builder", "        return self._define(name, definition, context_err_msg)"),
    (B, "        if not 0.0 < epsilon < 1.0:", "        if not (epsilon > 0.0 and epsilon < 1.0):"),
    (V, "            iterations = function(self.iterations)\n            residuals = function(self.residuals)\n            probabilities = function(self.probabilities)\n", "            probabilities = function(self.probabilities)\n            residuals = function(self.residuals)\n            iterations = function(self.iterations)\n"),
    (V, "            def update_applier(value):\n                if value is not None:\n                    return function(value)\n                return None\n\n            updates = {name: jax.tree_util.tree_map(update_applier, value)\n                        for name, value\n                        in self.updates.items()}",
        "            updates = {}\n            for name, value in self.updates.items():\n                updates[name] = None if value is None else jax.tree_util.tree_map(function, value)"),
    (V, "        if mask.dtype != jnp.bool_:\n            raise ValueError(f\"Mask was not made up of bool dtypes.\")\n\n        if mask.shape != self.probabilities.shape:\n            raise ValueError(f\"Mask of shape {mask.shape} does not match batch shape of {self.probabilities.shape}\")\n",
        "        if mask.shape != self.probabilities.shape:\n            raise ValueError(f\"Mask of shape {mask.shape} does not match batch shape of {self.probabilities.shape}\")\n        if mask.dtype != jnp.bool_:\n            raise ValueError(f\"Mask was not made up of bool dtypes.\")\n"),
    (T, "            function = checkify.checkify(function)\n            errors, _ = function()\n            errors.throw()\n        else:\n            pass", "            checkify.checkify(function)()[0].throw()"),
    (T, "        modes = [item.value for item in ErrorModes]\n        if error_mode not in modes:\n            raise ValueError(f\"Error mode must have been within {modes}\")\n\n        return cls(controller.state, error_mode)", "        return cls.edit_save(controller.save(), error_mode)"),
    (T, "        updates = self.state.updates.copy()\n        updates[name] = values\n        state = self.state.replace(updates=updates)\n        return TensorEditor(state, self.error_mode)", "        updates = {key: value for key, value in self.updates.items()}\n        updates.update({name: values})\n        return TensorEditor(self.state.replace(updates=updates), error_mode=self.error_mode)"),
    (A, "ACTMetaData", "LoopCounter", 0),
    (A, "        controller, final_state, _ = self._while_loop(act_layer, wrapped_state)\n        return controller, final_state", "        return self._while_loop(act_layer, wrapped_state)[:2]"),
    (A, "            controller, state, metadata = state\n            controller, state = layer.run_iteration(controller,\n                                                    state)\n            return controller, state, metadata.increase_counter()", "            controller, inner, metadata = state\n            result = layer.run_iteration(controller, inner)\n            return result[0], result[1], metadata.increase_counter()"),
    (L, "        controller = self.layer.make_controller(initial_state, *args, **kwargs)\n\n        def validate():\n            context_error_msg = f\"An issue occurred while trying to make an act controller using the user layer\"\n            self._validate_is_controller(controller, context_error_msg)\n            self._validate_controller_not_empty(controller, context_error_msg)\n\n        self._execute_validation(validate)\n        return controller",
        "        made = self.layer.make_controller(initial_state, *args, **kwargs)\n        if self.check_errors is True:\n            context = \"An issue occurred while trying to make an act controller using the user layer\"\n            self._validate_is_controller(made, context)\n            self._validate_controller_not_empty(made, context)\n        return made"),
    (L, "        if new_controller is original_controller:", "        if id(new_controller) == id(original_controller):"),
    (U, "    treedef = jax.tree_util.tree_structure(primary_tree)\n    primary_leaves = jax.tree_util.tree_flatten(primary_tree)[0]\n    auxilary_leaves = jax.tree_util.tree_flatten(auxilary_tree)[0]\n", "    primary_leaves, treedef = jax.tree_util.tree_flatten(primary_tree)\n    auxilary_leaves = jax.tree_util.tree_leaves(auxilary_tree)\n"),
    (U, "    tree_one = jax.tree_util.tree_map(lambda x : None, tree_one)\n    tree_two = jax.tree_util.tree_map(lambda x : None, tree_two)\n", "    def emptied(tree):\n        return jax.tree_util.tree_map(lambda _: None, tree)\n    tree_one, tree_two = emptied(tree_one), emptied(tree_two)\n"),
    (U, "            if leaf_a.ndim > leaf_b.ndim:\n                leaf_b = setup_left_broadcast(leaf_b, target=leaf_a)\n            elif leaf_a.ndim < leaf_b.ndim:\n                leaf_a = setup_left_broadcast(leaf_a, target=leaf_b)\n            result = operator(leaf_a, leaf_b)\n",
        "            if leaf_a.ndim < leaf_b.ndim:\n                left = setup_left_broadcast(leaf_a, leaf_b)\n                right = leaf_b\n            else:\n                left = leaf_a\n                right = setup_left_broadcast(leaf_b, leaf_a)\n            result = operator(left, right)\n"),
    (U, "    tree_def = jax.tree_util.tree_structure(operand_a)\n    leaves_on_a = jax.tree_util.tree_leaves(operand_a)\n", "    leaves_on_a, tree_def = jax.tree_util.tree_flatten(operand_a)\n"),
    (F, "        return nn.while_loop(is_not_complete, run_layer, self, wrapped_state)", "        return nn.while_loop(cond_fn=is_not_complete, body_fn=run_layer, mdl=self, init=wrapped_state)"),
    (I, "        if hasattr(self, '_is_immutable') and self._is_immutable and key != '_is_immutable':", "        if getattr(self, '_is_immutable', False) and key != '_is_immutable':"),
]

THREE = [
    # Controller: probabilities computed by cases, trees merged by tree_map, a helper per accumulator
    (C, "        raw_residuals = 1 - self.probabilities\n", "        raw_residuals = jnp.ones_like(self.probabilities) - self.probabilities\n"),
    (C, "        halting_probabilities = jax.lax.select(will_be_halted, raw_residuals, halting_probabilities)\n",
        "        halting_probabilities = jnp.where(newly_halting, raw_residuals, halting_probabilities)\n"),
    (C, "        halting_probabilities = jax.lax.select(self.halted_batches,\n                                               jnp.zeros_like(halting_probabilities),\n                                               halting_probabilities)\n",
        "        halting_probabilities = jnp.where(self.halted_batches, 0, halting_probabilities)\n"),
    (C, "                new_accumulator = utils.merge_pytrees(update_function,\n                                                      accumulator_tree,\n                                                      update_tree\n                                                      )\n",
        "                old_leaves, structure = jax.tree_util.tree_flatten(accumulator_tree)\n                update_leaves = jax.tree_util.tree_leaves(update_tree)\n                if len(old_leaves) != len(update_leaves):\n                    raise RuntimeError('The update has another number of leaves than the accumulator')\n                new_accumulator = structure.unflatten(list(map(update_function, old_leaves, update_leaves)))\n"),
    (C, "        new_iterations = self.iterations + 1\n        iterations = jax.lax.select(self.halted_batches, self.iterations, new_iterations)",
        "        iterations = jnp.where(self.halted_batches, self.iterations, self.iterations + 1)"),
    (C, "        state = self.state.replace(\n            iterations = iterations,\n            residuals = residuals,\n            probabilities=probabilities,\n            accumulators=accumulators,\n            updates = updates,\n        )\n        return ACT_Controller(state)\n",
        "        return self._successor(iterations=iterations, residuals=residuals, probabilities=probabilities,\n                               accumulators=accumulators, updates=updates)\n\n    def _successor(self, **changes)->'ACT_Controller':\n        return ACT_Controller(self.state.replace(**changes))\n"),
    (C, "        state = self.state.replace(\n            residuals=residuals,\n            probabilities=probabilities,\n            iterations=iterators,\n            accumulators=accumulators\n        )\n\n        return ACT_Controller(state)\n",
        "        return self._successor(residuals=residuals, probabilities=probabilities, iterations=iterators, accumulators=accumulators)\n"),
    (C, "        if name not in state.updates:\n            raise ValueError(f\"Accumulator with name {name} was never setup\")\n        if state.updates[name] is not None:\n",
        "        try:\n            pending = state.updates[name]\n        except KeyError:\n            raise ValueError(f\"Accumulator with name {name} was never setup\") from None\n        if pending is not None:\n"),
    (C, "        return utils.is_halted(self.probabilities, self.halt_threshold)", "        threshold = self.halt_threshold\n        return utils.is_halted(self.probabilities, threshold)"),
    (C, "        return jnp.all(self.halted_batches)", "        return self.halted_batches.all()"),
    (C, "        return jnp.any(self.halted_batches)", "        return self.halted_batches.any()"),
    (C, "                return jax.lax.select(broadcastable_selector,\n                                     accumulator_leaf,\n                                     default_leaf)", "                return jnp.where(broadcastable_selector, accumulator_leaf, default_leaf)"),
    # Viewer: one map over one dictionary
    (V, "            iterations = function(self.iterations)\n            residuals = function(self.residuals)\n            probabilities = function(self.probabilities)\n",
        "            iterations, residuals, probabilities = map(function, (self.iterations, self.residuals, self.probabilities))\n"),
    (V, "            def update_applier(value):\n                if value is not None:\n                    return function(value)\n                return None\n\n            updates = {name: jax.tree_util.tree_map(update_applier, value)\n                        for name, value\n                        in self.updates.items()}",
        "            updates = {name: jax.tree_util.tree_map(function, value) for name, value in self.updates.items()}"),
    (V, "            broadcastable_mask = utils.setup_left_broadcast(mask, tensor)\n            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))",
        "            return jnp.where(utils.setup_left_broadcast(mask, tensor), tensor, 0).astype(tensor.dtype)"),
    (V, "        halted_selector = self.halted_batches\n        return self.mask_data(halted_selector)", "        return self.mask_data(self.halted_batches)"),
    # Builder: validate everything about shapes first, then make the tensors
    (B, "        leaves, tree_def = jax.tree_util.tree_flatten_with_path(shapes, is_leaf)\n        new_leaves = []\n        for i, (path, leaf) in enumerate(leaves):\n",
        "        leaves, tree_def = jax.tree_util.tree_flatten_with_path(shapes, is_leaf)\n        for path, leaf in leaves:\n"),
    (B, "            new_leaves.append(jnp.full(leaf, fill_value=fill, dtype=dtype))\n", "        new_leaves = [jnp.full(leaf, fill, dtype=dtype) for _, leaf in leaves]\n"),
    (B, "            tensor_shape = leaf.shape[:batch_dim_length]\n            if tensor_shape != batch_shape:", "            tensor_shape = leaf.shape[:batch_dim_length]\n            if any(a != b for a, b in zip(tensor_shape, batch_shape)):"),
    (B, "        state = ACTStates(\n            epsilon=epsilon,\n            probabilities=probabilities,\n            iterations=iterations,\n            residuals=residuals,\n            accumulators=accumulators,\n            defaults=defaults,\n            updates=updates,\n            depression_constant=depression_constant\n        )\n\n        return cls(state)",
        "        return cls(ACTStates(epsilon, iterations, residuals, probabilities, defaults, accumulators, updates, depression_constant))"),
    (B, "        return ACT_Controller(self.state)", "        return ACT_Controller.load(self.state)"),
    # Editor
    (T, "        modes = [item.value for item in ErrorModes]\n        if error_mode not in modes:\n            raise ValueError(f\"Error mode must have been within {modes}\")\n\n        return cls(save, error_mode)",
        "        modes = tuple(item.value for item in ErrorModes)\n        for mode in modes:\n            if mode == error_mode:\n                return cls(save, error_mode)\n        raise ValueError(f\"Error mode must have been within {modes}\")"),
    (T, "        if self.error_mode == ErrorModes.standard.value:\n            function = checkify.checkify(function)\n            errors, _ = function()\n            errors.throw()\n        else:\n            pass",
        "        if self.error_mode != ErrorModes.standard.value:\n            return\n        errors, _ = checkify.checkify(function)()\n        checkify.check_error(errors)"),
    (T, "        checkify.check(jnp.all(tensor <= 1.0), msg)", "        checkify.check((tensor <= 1.0).all(), msg)"),
    (T, "        for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):\n            # Check if leaf has same shape\n", "        for i, original_leaf in enumerate(original_leaves[:len(new_leaves)]):\n            new_leaf = new_leaves[i]\n            # Check if leaf has same shape\n"),
    (T, "            self._validate_same_shape(self.probabilities, values, context_message)\n            self._validate_same_dtype(self.probabilities, values, context_message)\n            self._validate_probability(values, context_message)\n        self._execute_validation(check_for_errors)\n        state = self.state.replace(probabilities=values)\n        return TensorEditor(state, error_mode=self.error_mode)",
        "            self._validate_core(self.probabilities, values, context_message)\n            self._validate_probability(values, context_message)\n        self._execute_validation(check_for_errors)\n        return TensorEditor(self.state.replace(probabilities=values), self.error_mode)\n\n    def _validate_core(self, original, values, context_message):\n        self._validate_same_dtype(original, values, context_message)\n        self._validate_same_shape(original, values, context_message)"),
    # Layers: an array as the counter, the maximum with it
    (A, "        return ACTMetaData(self.num_iterations + 1,\n                           self.max_num_iterations)", "        import dataclasses\n        return dataclasses.replace(self, num_iterations=1 + self.num_iterations)"),
    (A, "        metadata = ACTMetaData(num_iterations=0,\n                               max_num_iterations=max_iterations)\n\n        self.setup_lazy_parameters(controller, initial_state)\n", "        self.setup_lazy_parameters(controller, initial_state)\n        metadata = ACTMetaData(0, max_iterations)\n"),
    (A, "        condition = ~controller.is_completely_halted\n        condition = jnp.logical_and(condition, metadata.num_iterations < metadata.max_num_iterations)\n        return condition",
        "        some_left = metadata.num_iterations < metadata.max_num_iterations\n        return some_left & ~controller.is_completely_halted"),
    (A, "            controller, state = layer.run_iteration(controller,\n                                                    state)\n            return controller, state, metadata.increase_counter()",
        "            return (*layer.run_iteration(controller, state), metadata.increase_counter())"),
    (L, "        if self.check_errors is True:\n            function()", "        if self.check_errors is True:\n            return function()"),
    (L, "        update = self.layer.run_iteration(controller, state)\n", "        layer = self.layer\n        update = layer.run_iteration(controller, state)\n"),
    # Utils: recursion and comprehension
    (U, "    broadcast_overlap = min(array_a.ndim, array_b.ndim)\n", "    try:\n        np.broadcast_shapes(array_a.shape, array_b.shape)\n        return True\n    except ValueError:\n        return False\n    broadcast_overlap = min(array_a.ndim, array_b.ndim)\n"),
    (U, "    if tensor.ndim == 0:\n        # Scalars will always left broadcast just fine\n        return tensor\n\n    assert len(tensor.shape) <= len(target.shape)\n    while len(tensor.shape) < len(target.shape):\n        tensor = tensor[..., None]\n    return tensor",
        "    missing = target.ndim - tensor.ndim\n    if tensor.ndim == 0:\n        return tensor\n    assert missing >= 0\n    return jnp.expand_dims(tensor, tuple(range(tensor.ndim, target.ndim)))"),
    (U, "    new_leaves = []\n    for primary_leaf, aux_leaf in zip(primary_leaves, auxilary_leaves):\n        update = function(primary_leaf, aux_leaf)\n        new_leaves.append(update)\n\n    return jax.tree_util.tree_unflatten(treedef, new_leaves)",
        "    remaining = iter(auxilary_leaves)\n    return jax.tree_util.tree_map(lambda leaf: function(leaf, next(remaining)), primary_tree)"),
    (U, "    checkified_function = checkify.checkify(function)\n    jitted_function = jax.jit(checkified_function)\n", "    jitted_function = jax.jit(checkify.checkify(function, errors=checkify.user_checks))\n"),
    (U, "        errors.throw()\n        return output", "        checkify.check_error(errors)\n        return output"),
    (U, "    return [source_leaf]*num_times", "    return [source_leaf for _ in range(num_times)]"),
    (U, "    output = []\n    for i, (leaf_a, leaf_b) in enumerate(zip(leaves_on_a, leaves_on_b)):\n\n        try:\n", "    output = []\n    for i, leaf_a in enumerate(leaves_on_a):\n\n        try:\n            leaf_b = leaves_on_b[i]\n"),
    (U, "            elif use_allclose:\n                return jnp.allclose(leaf_one, leaf_two)\n            else:\n                return jnp.all(leaf_one == leaf_two)", "            return jnp.allclose(leaf_one, leaf_two) if use_allclose else bool((leaf_one == leaf_two).all())"),
    (U, "    result_tree = merge_pytrees(are_leaves_equal, tree_one, tree_two)\n    leaves = jax.tree_util.tree_flatten(result_tree)[0]\n    return all(leaves)", "    return all(jax.tree_util.tree_leaves(merge_pytrees(are_leaves_equal, tree_one, tree_two)))"),
    (U, "    source_class, source_keys = source_treenode.node_data()\n    target_class, target_keys = target_treenode.node_data()\n", "    (source_class, source_keys), (target_class, target_keys) = (node.node_data() for node in (source_treenode, target_treenode))\n"),
    # States, Flax, Immutable
    (S, "    return zip(state.keys(), values), aux_out", "    return tuple(zip(state.keys(), values)), tuple(aux_out)"),
    (S, "        return ACTStates(epsilon,\n                         iterations,\n                         residuals,\n                         probabilities,\n                         defaults,\n                         accumulators,\n                         updates,\n                         depression_constant,\n                         error_mode\n                         )",
        "        return ACTStates(epsilon=epsilon, iterations=iterations, residuals=residuals, probabilities=probabilities, defaults=defaults,\n                         accumulators=accumulators, updates=updates, depression_constant=depression_constant, error_mode=error_mode)"),
    (F, "            module_layer = ContractValidationWrapper(module, layer.check_errors)\n            return self._while_loop_adapter_factory(module_layer)(state)", "            adapter = module._while_loop_adapter_factory(ContractValidationWrapper(module, layer.check_errors))\n            return adapter(state)"),
    (I, "        self._is_immutable = True", "        object.__setattr__(self, '_is_immutable', True)"),
    (I, "        if hasattr(self, '_is_immutable') and self._is_immutable and key != '_is_immutable':\n            raise AttributeError(\"Cannot modify immutable object\")\n        super().__setattr__(key, value)",
        "        frozen = self.__dict__.get('_is_immutable', False)\n        if not frozen or key == '_is_immutable':\n            super().__setattr__(key, value)\n        else:\n            raise AttributeError(\"Cannot modify immutable object\")"),
]

REFACTORS = [("one", ONE), ("two", TWO), ("three", THREE)]
