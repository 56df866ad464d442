"""What the unchanged tree does that a property deliberately does not claim (read by tools/design.py)."""
NOTES.update({
    "P14": ["a step's weight is model over logged propensity of the logged action; the page must hold at least one episode."],
    "P15": ["bootstrap confidence bounds of MAGIC are random; only their use (convex weights minimising the stated objective) is under contract, on bounded cases."],
    "P16": ["SwitchDR uses the paper's bias bound in its own form; the chosen threshold is specified against the code's stated variance and bias terms."],
    "P17": ["self-normalised weights divide by the episodes still running, not by all episodes (as the statement says).",
            "the gradient search of sequential MAGIC is only claimed to return a convex combination."],
    "P18": ["the pseudo-inverse estimator uses the outer product of expectations.",
            "slot-dependent rewards with a sampled slate distribution are a known finding (see known_findings.json)."],
    "P19": ["CLIP_LOG and DISCRETE_ACTION raise a range exception in training mode outside their range; that exception is not claimed.",
            "Box-Cox is claimed for values above the code's margin (1e-6 after the shift)."],
    "P20": ["fewer than 20 values, and features with no values, are outside the domain.",
            "identification runs on real numpy arrays: bounded; the arithmetic that decides (`identify_type`) is evaluated on value families at and around each threshold."],
    "P24": ["the inductive invariant is stated by age of the stored items; the step obligation is discharged for each operation on enumerated shapes of the buffer."],
    "P27": ["the batch fields `priority`/`next_priority` of the underlying buffer are uninitialised memory in the repository and not claimed; the priorities reported come from the sum tree."],
    "P28": ["`torch.multinomial` is assumed never to draw an index of probability zero."],
    "P29": ["the density with l2-normalised actions is not claimed; FullyConnectedActor uses exploration_variance as a standard deviation (as is)."],
    "P31": ["`temperature` is unused by the decoder (as is); the target must not be longer than the source.",
            "the greedy second position with three candidates is covered by the concrete reading only."],
    "P32": ["sampling from the mixture (`sample`) is not part of the statement."],
    "P34": ["`_embed_states` flattens candidates although its comment says mean (as is)."],
    "P37": ["MonteCarloTrainer's own softmax of value times count is as is."],
    "P38": ["dueling heads with atoms centre over atoms and actions together (as is); masks combined with atoms are not claimed; the parametric dueling network ignores use_batch_norm (as is)."],
    "P39": ["the docstring of `terminal_effective` contradicts the code; the code's reading is under contract."],
    "P41": ["world-model evaluators leave the model in training mode whatever its mode was (as is)."],
    "P42": ["`from_json` does not rebuild NamedTuples (as is); learning-rate schedulers cannot be built with the installed torch (`_LRScheduler` was renamed) and Adamax/SparseAdam configurations fail for the same kind of reason: outside the domain."],
})
