#!/usr/bin/env python3
"""Write known_findings.json."""
import json
import os

OPEN = [
 dict(property="C15", id="C15-closest-unitary",
      config={"h": "closest", "noise": 0},
      label="gradient with closest unitary",
      what="OperationInfidelity.grad with map_to_closest_unitary=True ignores "
           "the mapping (propagator A_yy in a one dimensional subspace: cost "
           "constant, gradient not zero)"),
 dict(property="C15", id="C15-closest-unitary-noise",
      config={"h": "closest", "noise": 1},
      label="gradient with closest unitary",
      what="OperationNoiseInfidelity.grad with map_to_closest_unitary=True "
           "ignores the mapping"),
]
FIXED = [
 ("C04", "3e8e420", "truncate_to_subspace of kets and bras, and rescaling them, failed or returned the wrong entries"),
 ("C05", "95dbd28", "derivative of the spectral matrix exponential, and exponentials of non-normal matrices, were wrong"),
 ("C06", "7ef0c03", "rejected optimization parameters became the current ones"),
 ("C07", "d61c929", "the grape option multiplied control Hamiltonian and propagator in the wrong order"),
 ("C08", "0a2ca03", "filter function noise Hamiltonian of the Monte Carlo solver failed"),
 ("C10", "2b02857", "Lindblad solvers changed the dissipation superoperators of the caller"),
 ("C11", "2b1fdb7", "set_times after set_optimization_parameters left the transferred parameters of the old times"),
 ("C19", "50b5210", "matrices of concatenated and parallel transfer functions, offsets, and matrices cached across set_times were wrong"),
 ("C17", "1b5d9cb", "CustomMTF overwrote explicit times and could be given times only once"),
 ("C17", "cf5e176", "ExponentialMTF failed for a single padded step"),
 ("C18", "c9852e1", "gradients of the convolution transfer functions were not the adjoint of the convolution"),
 ("C11", "4a6fb49", "set_times with another number of steps left the drift and the dissipation with one entry for each previous step (IndexError, AssertionError)"),
 ("C11", "dde006f", "transfer functions kept the caller's array of times"),
 ("C12", "d9d46c2", "OperatorMatrixNorm could not be constructed"),
 ("C13", "842c09f", "StateNoiseInfidelity without target failed"),
 ("C12", "5dd4168", "warning about a complex state fidelity indexed a scalar"),
 ("C20", "3051f89", "amplitude functions whose first value is an integer were truncated to integers"),
 ("C21", "398dba2", "setting the pulse of a simulator without initial pulse failed"),
 ("C15", "111e17a", "gradient of the state infidelity with rescaled states ignored the norm"),
 ("C22", "99807db", "least squares optimization failed without bounds"),
 ("C23", "f5e22c3", "cost function weights changed the saved costs"),
 ("C23", "d82c8a1", "the summary and the best parameters were views of the algorithm's array"),
 ("C23", "9449376", "minimizers with other methods always stored the optimizer"),
 ("C24", "a90e7bd", "the result after the wall time limit used permuted parameters and failed without evaluation"),
 ("C24", "a5084ba", "termination conditions were shared by all optimizers"),
 ("C26", "284a40d", "to_dict of a result lost its status"),
 ("C26", "f052077", "copy.deepcopy of a data container failed"),
 ("C26", "84824fe", "index of a data container was a list method"),
 ("C27", "bde822d", "one dimensional bell curve was normalized like a two dimensional one"),
 ("C27", "848336d", "list of standard deviations of the caller was changed"),
 ("C27", "dea4f2f", "standard deviation was corrected with the number of traces of all operators"),
 ("C28", "3193d3e", "colored noise with an odd number of samples had wrong frequencies"),
 ("C16", "6366a0b", "creating the pulse sequence again for the same amplitudes failed, and mixed up more than ten controls"),
 ("C31", "75f070f", "matrices with a wrong second row were accepted as unitary"),
 ("C11", "f9560cc", "transferred parameters shared memory with the current parameters, so overwriting them made the solver ignore a new pulse with these values"),
 ("C29", "c9ae0e6", "plot_pulse drew steps of unequal duration with the duration of the first"),
 ("C29", "9f723c8", "color map lookup that matplotlib removed, so no energy spectrum could be plotted"),
 ("C28", "f39f2fe", "rounding to a power of two rounded up and kept the frequencies"),
]
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [dict(e, status="open") for e in OPEN]
out += [{"property": p, "status": "fixed", "commit": c,
         "what": "fixed: property=%s %s %s" % (p, c, w)}
        for p, c, w in FIXED]
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
