ALL = 'proved for all inputs of the contract over the reals, numpy/scipy behaviour assumed as modelled in pvc; '
NOTE = {
    'C01': ('proof', ALL + 'container handling and the numerical estimators are replayed on sampled inputs'),
    'C02': ('proof', ALL + 'executable contracts in addition on sampled inputs'),
    'C03': ('proof', ALL + 'convergence of the numerical optimiser is a bounded replay; the concentration loop is proved by a while invariant'),
    'C04': ('proof', ALL + 'the numerical centre is taken modularly; agreement of the three entry points proved for each radial function and centre'),
    'C05': ('proof', ALL + 'training data estimates replayed on sampled inputs'),
    'C06': ('proof', ALL + 'range and monotonicity are lemmas over the contracts'),
    'C13': ('proof', ALL + 'every mode of the product moments, trimmed modes included, and the trimmed co-moments of trim_mom; the index that combines them proved for every degree'),
    'C20': ('proof', ALL + 'dispatch of containers in snipls replayed on sampled inputs'),
    'C21': ('proof', ALL + 'scale constraints for 1, 2 and 3 components (bounded in the number of components only), finite differences for affine and quadratic functions of every size, two functions at one point; minimize_ipopt under contract with a recording solver and two constraints (bounded in their number)'),
    'C22': ('proof', ALL + 'robust loss modular in the weight function and loss, the score table for every number of combinations; the scoring inside cross-validation is a bounded replay'),
    'C12': ('proof', ALL + 'grids of 3 and 4 directions (bounded in the number of directions only, the trigonometric constants of the grid evaluated to 9 decimals), any data and any index; the objective of the numerical optimisers without bound; the search over more than two variables is replayed on sampled inputs'),
    'C14': ('proof', ALL + 'centring and the (trimmed) averages of the naive computation for any number of cases; the numba-compiled fast computation is compared with the naive one on sampled inputs'),
    'C15': ('other', 'bounded in the number of slices: ' + ALL + '2 to 6 slices (bounded in the number of slices only), any response'),
    'C16': ('proof', ALL + 'sliced methods for 2 and 3 classes, Hessian iteration for 2 and 3 predictors (bounded in those only), any number of cases; the eigen-decomposition is an assumed contract'),
    'C17': ('proof', ALL + 'every method modular in its directions, the numerical searches of the distance-based methods being assumed to return some directions; the optimiser itself is replayed on sampled inputs'),
    'C07': ('proof', ALL + 'the reweighting loop is proved by a while invariant for any number of iterations, each weighted regression being the contract of its callee (least squares, sparse PLS); zero-scale columns, starting values by principal components and convergence itself are replayed on sampled inputs'),
    'C08': ('proof', ALL + 'predict of every estimator for any fitted state, any container and single rows; fitted values, residuals and intercepts of the whole fits with 1 and 2 components (bounded in the number of components only); the remaining settings are replayed on sampled inputs'),
    'C09': ('proof', ALL + 'transform of every estimator for any fitted state and container; scores of the whole fits with 1 and 2 components (bounded in the number of components only); the remaining settings are replayed on sampled inputs'),
    'C10': ('other', 'bounded in the number of components: ' + ALL + 'whole fit with 1 and 2 components (bounded in the number of components only), any number of cases and variables and any sparsity; missing values and names are replayed on sampled inputs'),
    'C11': ('proof', ALL + 'whole fits with 1 and 2 components (bounded in the number of components only) for any directions the optimiser returns, with least squares, robust and quantile inner regressions (those regressions being contracts of their callees), and for the IPOPT, differential evolution and plane grid optimisers; other settings are replayed on sampled inputs'),
    'C18': ('proof', ALL + 'frame conditions of the functions under contract, whole fits included; containers, option dictionaries and layouts are replayed on sampled inputs'),
    'C19': ('proof', ALL + 'parameters after the fit, and fits from every stale state a contract can describe (state contracts compare the attributes a fresh fit sets); longer histories of calls are replayed on sampled inputs'),
}
