"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the checks do not use it)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/direpack/'
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech])))


prop('C01', 'Centring and scaling is exact, reusable on new data and invertible',
     'For every data matrix, centre and scale option, the scaled training data are (x - location)/scale column by column with the stored estimates, a zero scale being replaced by one. New data are scaled with the stored training estimates, never with their own. The inverse transform gives back the data that were scaled.',
     ['inputs', 'configurations'], 'all finite matrices with at least two rows, all centre and scale options, all new data with the same columns',
     'tests compare two options on one data set with stored numbers and never invert or rescale new data',
     ['preprocessing/robcent.py', 'preprocessing/_preproc_utilities.py'],
     [('VersatileScaler.fit/transform/predict/inverse_transform', 'preprocessing/robcent.py'), ('scale_data, _handle_zeros_in_scale', 'preprocessing/_preproc_utilities.py')])
prop('C02', 'Location and scale estimates equal their column-wise definitions',
     'The mean, trimmed mean, median, standard deviation and median absolute deviation of every column, and the tau scale of a single column, equal their textbook definitions, with the normal consistency factors for the median absolute deviation and the tau scale and trimming applied symmetrically. Each column is treated independently of the others. An invalid trimming fraction is refused.',
     ['inputs'], 'all finite matrices and all trimming fractions between 0 and 1 (below one half)',
     'tests check each estimator on one matrix', ['preprocessing/_preproc_utilities.py'],
     [('mean, median, std, mad, scaleTau2, _check_trimming', 'preprocessing/_preproc_utilities.py')])
prop('C03', 'Multivariate medians minimise what they claim to minimise',
     'The spatial median of complete data is a stationary point of the sum of Euclidean distances to the cases; the objective and gradient used to find it are exactly that sum and its derivative (over the observed values, when some are missing). The k-step trimmed location starts from the spatial median and each step averages the half of the cases nearest to the current location.',
     ['inputs'], 'all finite data matrices, number of steps and tolerances', 'tests compare one data set with stored numbers', ['preprocessing/_preproc_utilities.py'],
     [('_l1m_objective, _l1m_jacobian, l1median, kstepLTS', 'preprocessing/_preproc_utilities.py')])
prop('C04', 'Generalised spatial signs follow their radial functions',
     'Each case is moved along its ray from the centre by exactly the documented radial function of its distance: unit norm for the spatial sign, cut-off, winsorised, shell or redescending otherwise. The function form, the transformer and the sign covariance matrix agree, and new data are transformed with the stored centre.',
     ['inputs', 'configurations'], 'all finite data, radial functions and centres', 'tests look at one radial function on one data set',
     ['preprocessing/gsspp.py', 'preprocessing/_gsspp_utils.py'], [('ss, quad, winsor, ball, shell, linear_redescending, _gsspp', 'preprocessing/_gsspp_utils.py'), ('GenSpatialSignPreProcessor, gen_ss_pp, gen_ss_covmat', 'preprocessing/gsspp.py')])
prop('C05', 'Wrapping leaves central values alone and bounds outliers',
     'Wrapping a column leaves every value within 1.5 scales of its location as it is, sets values beyond 4 scales to the location, and moves the values in between by the published hyperbolic tangent piece with their side of the location kept. New data are wrapped with the location and scale of the training data.',
     ['inputs'], 'all finite data, locations and positive scales', 'tests wrap one data set', ['preprocessing/_preproc_utilities.py', 'preprocessing/robcent.py'],
     [('wrap_univ, wrap', 'preprocessing/_preproc_utilities.py'), ('Wrapper', 'preprocessing/robcent.py')])
prop('C06', 'Robustness weights are exact, in [0,1] and never increase with distance',
     'The Fair, Huber and Hampel weights equal their definitions for every distance and cut-off, lie between zero and one and never increase with the distance. Huber and Hampel weights are one up to the first cut-off, and Hampel weights are zero beyond the last.',
     ['inputs'], 'all distances and ordered cut-offs', 'no test evaluates the weight functions', ['sprm/_m_support_functions.py'], [('Fair, Huber, Hampel', 'sprm/_m_support_functions.py')])
prop('C07', 'Robust regressions carry out the documented reweighting',
     'Robust M and sparse partial robust M regression return the fit of the documented iteration: starting weights from robust distances and responses, a weighted fit, weights recomputed from scaled residuals and from scores, until the coefficients settle. The case weights reported lie in [0,1], are the product of the predictor and residual weights, and a grossly outlying response gets (almost) no weight. Weights of new cases come from the same weight function and cut-offs.',
     ['inputs', 'configurations'], 'all data with non-degenerate scales, weight functions, cut-offs, centres, scales and iteration limits', 'tests compare one data set with stored coefficients',
     ['sprm/rm.py', 'sprm/sprm.py', 'sprm/_m_support_functions.py'], [('rm.fit', 'sprm/rm.py'), ('sprm.fit, sprm.weightnewx', 'sprm/sprm.py')])
prop('C08', 'Predictions are row-wise affine and agree with the fitted values',
     'For every regression estimator, predictions of the training data equal the reported fitted values, residuals are response minus fitted value, and predictions are the data times the coefficients plus the intercept. The prediction of a case does not depend on the other cases in the call nor on the container holding them. Data with another number of columns are refused with a ValueError.',
     ['inputs', 'configurations'], 'all training data, settings and new data', 'tests predict nothing new; fitted values are compared for one data set',
     ['sprm/rm.py', 'sprm/snipls.py', 'sprm/sprm.py', 'ppdire/ppdire.py', 'sudire/sudire.py', 'utils/utils.py'],
     [('predict', 'sprm/rm.py'), ('predict', 'sprm/snipls.py'), ('predict', 'sprm/sprm.py'), ('predict', 'ppdire/ppdire.py'), ('predict', 'sudire/sudire.py'), ('_predict_check_input', 'utils/utils.py')])
prop('C09', 'Transforming the training data gives the scores of the fit',
     'For every dimension reduction estimator, the transform of the training data equals the scores of the fit, one row per case and one column per component. The score of a case is an affine function of that case alone. Data with another number of columns are refused with a ValueError.',
     ['inputs', 'configurations'], 'all training data, settings and new data', 'tests never transform new data', ['sprm/snipls.py', 'sprm/sprm.py', 'ppdire/ppdire.py', 'sudire/sudire.py'],
     [('transform', 'sprm/snipls.py'), ('transform', 'sprm/sprm.py'), ('transform', 'ppdire/ppdire.py'), ('transform', 'sudire/sudire.py')])
prop('C10', 'Sparse PLS keeps the variables it should and is least squares on its scores',
     'A component of sparse partial least squares uses the variables whose covariance with the deflated response exceeds the sparsity fraction of the largest one, together with those retained before, and every eliminated variable has zero weight, loading and coefficient. Scores are orthogonal, and the coefficients are the least squares regression of the response on the scores. The retained variables are reported, by name when names are given.',
     ['inputs', 'configurations'], 'all data, sparsity fractions and numbers of components', 'tests compare one data set with stored coefficients', ['sprm/snipls.py'], [('snipls.fit', 'sprm/snipls.py')])
prop('C11', 'Projection pursuit components are orthogonal and reproduce the data',
     'Whatever the projection index and optimiser, weights have unit norm, scores of successive components are orthogonal, loadings are the regression of the data on the scores, and the scores equal the preprocessed data times the rotations. With a response and least squares, the coefficients for every number of components are the least squares regression on that many scores, on the original scale with the matching intercept; robust and quantile inner regressions are likewise of the preprocessed response on each score.',
     ['inputs', 'configurations'], 'all data, projection indices, optimisers and numbers of components', 'tests compare single components of one data set with stored numbers', ['ppdire/ppdire.py'], [('ppdire.fit', 'ppdire/ppdire.py')])
prop('C12', 'The grid search returns the best direction of its grid',
     'The search in a plane evaluates the (squared, when asked) projection index in every direction of the grid with the arguments given and returns a direction attaining the largest value, together with that value. The refinement does the same on its rescaled grid, and the objective given to numerical optimisers is minus the index of the projected data. The criterion value reported by a fit is the index at the weights reported.',
     ['inputs', 'configurations'], 'all data, projection indices and grid sizes', 'tests use one index on one data set', ['ppdire/_ppdire_utils.py', 'ppdire/ppdire.py'], [('gridplane, gridplane_2, pp_objective', 'ppdire/_ppdire_utils.py')])
prop('C13', 'Classical moments and co-moments equal their definitions',
     'Variance, deviation, skewness, kurtosis, covariance, correlation, co-skewness, co-kurtosis and continuum association equal their definitions with the trimming and small-sample correction asked for. The median-based variants use medians throughout. The generalised betting index is the weighted sum of the co-moments it collects.',
     ['inputs', 'configurations'], 'all samples, trimming fractions, options and orders', 'tests check a few modes on one data set', ['dicomo/dicomo.py', 'dicomo/_dicomo_utils.py', 'ppdire/capi.py'],
     [('trim_mom, trim_mean, trimvar', 'dicomo/_dicomo_utils.py'), ('dicomo.fit', 'dicomo/dicomo.py'), ('capi.fit', 'ppdire/capi.py')])
prop('C14', 'Energy statistics equal their definitions and the fast and naive ways agree',
     'Distance matrices are doubly centred so that rows and columns have mean zero (or the unbiased equivalent), and distance variance, covariance, correlation and martingale difference divergence are the corresponding averages of products of centred distances. The fast and the naive computation give the same value.',
     ['inputs', 'configurations'], 'all samples, metrics and bias corrections', 'tests check a few statistics on one data set', ['dicomo/_dicomo_utils.py', 'dicomo/dicomo.py'],
     [('double_center_flex, distance_matrix_centered, distance_moment, difference_divergence, U_inner, D_inner, MDDM', 'dicomo/_dicomo_utils.py')])
prop('C15', 'Slicing a response is monotone, complete and cut at order statistics',
     'Slicing a response into h classes gives every case a class from 1 to h, larger responses never get a lower class, and equal responses get the same class. The classes are cut at the order statistics that make all slices but the last equally large, whatever the order of the cases.',
     ['inputs'], 'all responses, with or without ties, and all numbers of slices from 2 to n', 'tests slice one response indirectly', ['sudire/_sudire_utils.py'], [('discretize', 'sudire/_sudire_utils.py')])
prop('C16', 'Sufficient reduction directions are the leading eigenvectors of their kernel',
     'The directions of sliced inverse regression, sliced average variance, directional regression, principal Hessian directions and iterative Hessian transformation are the leading eigenvectors, in the metric of the data, of the kernel matrix that defines the method. They do not depend on the order of the cases nor on the labels of a discrete response.',
     ['inputs', 'configurations'], 'all data with a regular covariance matrix, numbers of slices and directions, discrete and continuous responses', 'tests compare one data set with stored directions', ['sudire/_sudire_utils.py'],
     [('matpower, SIR, SAVE, DR, PHD, IHT', 'sudire/_sudire_utils.py')])
prop('C17', 'The fitted subspace, projection, scores and regression belong together',
     'After a fit of a sufficient dimension reduction, the scores are the original data times the loadings, the projection matrix is symmetric, idempotent, of the rank asked for and leaves the loadings alone, and predictions are the least squares regression of the response on the scores. The loadings are the directions of the method mapped back to the original variables; when the data are standardised by their covariance the scores are uncorrelated with unit variance.',
     ['inputs', 'configurations'], 'all data with a regular covariance matrix and all settings of the directly computed methods', 'tests compare one data set with stored numbers', ['sudire/sudire.py'], [('sudire.fit/transform/predict', 'sudire/sudire.py')])
prop('C18', "The caller's data and settings are never modified",
     'No fit, transform, prediction or moment computation changes the arrays, data frames, option dictionaries or lists handed over by the caller, with copying switched on or off. Read-only and non-contiguous arrays are accepted.',
     ['inputs', 'configurations'], 'all estimators, transformers and moment functions, all containers and settings', 'tests never look at their inputs again',
     ['preprocessing/robcent.py', 'sprm/snipls.py', 'sprm/rm.py', 'sprm/sprm.py', 'ppdire/ppdire.py', 'sudire/sudire.py', 'dicomo/dicomo.py', 'ipopt_temp/ipopt_wrapper.py'],
     [('fit', 'sprm/rm.py'), ('fit', 'ppdire/ppdire.py'), ('fit', 'sudire/sudire.py'), ('fit', 'dicomo/dicomo.py')])
prop('C19', 'Results depend on the last fit only, and fitting leaves the parameters alone',
     'Fitting an estimator gives the same results as fitting a new one with the same settings, whatever was fitted, predicted or set before, and fitting the same data twice gives the same result. The parameters reported after a fit are those set by the user, and an estimator built from them fits identically. Defaults are not shared between estimators.',
     ['histories', 'configurations'], 'all sequences of fits, settings and queries', 'tests fit each estimator once',
     ['sprm/snipls.py', 'sprm/rm.py', 'sprm/sprm.py', 'ppdire/ppdire.py', 'sudire/sudire.py', 'dicomo/dicomo.py', 'preprocessing/robcent.py'],
     [('fit, get_params, set_params', 'ppdire/ppdire.py'), ('fit', 'sudire/sudire.py'), ('fit', 'dicomo/dicomo.py')])
prop('C20', 'Products that skip missing values skip exactly those',
     'The product of matrices with missing entries sums the products of the entries present and treats the missing ones as absent. Without missing entries it is the ordinary matrix product with the ordinary shape.',
     ['inputs'], 'all conformable matrices and patterns of missing values', 'no test has missing values', ['utils/utils.py'], [('nandot, nanmatdot', 'utils/utils.py')])
prop('C21', 'Finite-difference Jacobians are exact on affine functions; constraints are exact',
     'The numerical Jacobians equal the exact derivative for affine functions and converge to it for smooth ones, row by row in the order of the outputs. The scale constraints equal the entries of the covariance of the projected data, respectively of the cross-product of the directions, minus the identity.',
     ['inputs'], 'all points, affine and smooth functions, all entries', 'the optimiser using them is not installed, so no test reaches them', ['ipopt_temp/jacobian.py', 'utils/utils.py'], [('jacobian approximations', 'ipopt_temp/jacobian.py'), ('const_xscale, const_zscale', 'utils/utils.py')])
prop('C22', 'Robust validation losses weight residuals by their size only',
     'The robust loss is the weighted loss with weights from the weight function at the absolute residuals, so that changing the sign of a residual changes nothing and gross residuals count less. The cross-validation table has one row per parameter combination with its scores, in order.',
     ['inputs', 'configurations'], 'all responses, predictions, weight functions and cross-validation results', 'no test evaluates the loss', ['cross_validation/_cv_support_functions.py'], [('robust_loss, cv_score_table', 'cross_validation/_cv_support_functions.py')])

# what the contracts do not reach, per property (level_note)
NOTE = {}
try:
    import importlib.util
    sp = importlib.util.spec_from_file_location('notes', os.path.join(HERE, 'tools', 'notes.py'))
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    NOTE = m.NOTE
except FileNotFoundError:
    pass
DEFAULT = 'bounded: executable contracts on sampled inputs of the real code, never counted as proved'

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks = []
for p in P:
    lv, note = NOTE.get(p['id'], ('exploration', DEFAULT))
    cmd = '/opt/venv/bin/python run.py --property %s --tier %%s' % p['id']
    checks.append(dict(property=p['id'], quick_cmd=cmd % 'quick', thorough_cmd=cmd % 'thorough', evidence_file='evidence/%s.json' % p['id'],
                       technique='contract-based deductive verification of the real functions (verification conditions from /repo source, discharged by z3), failing inputs replayed on the real code' if lv == 'proof'
                       else 'contracts of the real functions evaluated on sampled inputs (bounded stand-in)', level=lv, level_note=note))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
               notes='run.py generates the obligations from the current source of /repo on every run; known_findings.json lists recorded defects'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
