"""Per property: the oracle, and the time of the quick check."""
O = {
 "C01": "entrywise sums, products and quotients of the free entries; storage "
        "is probed by changing results and looking at the operands.",
 "C02": "index sums over the entries; the partial trace as an explicit sum "
        "over the removed indices in mixed radix notation.",
 "C03": "column stacking by index, `vec(U rho U^dag)` entry by entry.",
 "C04": "entry selection by the list of states; `V W^dag` of the singular "
        "value factors; norm one and direction of vectors.",
 "C05": "partial sums of the exponential series; divided differences "
        "(Daleckii-Krein) in the eigenbasis; symbolic derivative of the "
        "polynomials; expm axioms for unitarity.",
 "C06": "`expm(-i dt_k (H_k + sum_c u_kc C_c))` with the argument compared "
        "exactly, and explicit ordered products.",
 "C07": "the derivative of the reference generator inserted in the Frechet "
        "derivative; product rule for the total propagator.",
 "C08": "as C06 with `sum_n s_n(u) x_nk N_n` added for each trace, by index.",
 "C09": "the reference pulse plus the sample, through the amplitude function, "
        "as C06.",
 "C10": "`-i[H, .] + sum_l (L . L^dag - {L^dag L, .}/2)` on basis matrices, "
        "column stacked; symbolic derivatives of prefactors.",
 "C11": "a fresh solver given the last pulse, noise samples and times; all "
        "observables of the used solver have to equal its.",
 "C12": "overlaps and norms as sums over entries of the propagators and "
        "targets.",
 "C13": "mean over the traces of the single trace formula of C12.",
 "C14": "probabilities and norms outside the computational states as sums "
        "over entries.",
 "C15": "symbolic derivative of the cost reference of C12 to C14.",
 "C16": "recorded arguments of the interface against durations, amplitudes, "
        "susceptibilities by identifier.",
 "C17": "the documented response of every transfer function as sums over "
        "steps (sub-steps, padding, exponential saturation, Gaussian kernel).",
 "C18": "symbolic derivative of the reference of C17.",
 "C19": "composition of the references of the parts.",
 "C20": "the given function applied to every value, its derivative.",
 "C21": "cost references on explicitly multiplied propagators, their "
        "symbolic derivative by the raw pulse.",
 "C22": "flattening by index, weighted sums; arguments recorded by the "
        "arbitrary algorithm.",
 "C23": "the log of evaluations kept by the arbitrary algorithm.",
 "C24": "log of evaluations and the clock readings; minimality as an "
        "inequality for every other evaluation.",
 "C25": "interval and integrality of every moved entry; clipping formula; "
        "reachability of each integer.",
 "C26": "the values put in; sums and roots over them.",
 "C27": "quantile and moment equations of the normal distribution.",
 "C28": "autocovariance of the response to every draw against the sum over "
        "frequencies of density times cosine.",
 "C29": "the data put in, by index; positions as multiples of the step; "
        "proportional colors.",
 "C30": "the log of each worker's arbitrary algorithm, matched by its initial "
        "pulse.",
 "C31": "`exp(i phi)(cos(t/2) - i sin(t/2) n.sigma)` for free phase, angle and "
        "axis.",
}
COST = {"C11": 43, "C12": 28, "C13": 37, "C15": 29, "C21": 40, "C25": 35,
        "C30": 40, "C31": 22}
