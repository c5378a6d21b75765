import json
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        mechanism=[dict(name=n, where=w) for n, w in mechanism],
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe))))
S='src/ondil/'
prop('C01','Gram statistics equal the discounted weighted batch sums',
 "The X'X and X'y statistics built from a batch equal the sums over its rows of weight times (1-forget)^(age) times the outer product of the row with itself (with the response), where the newest row has age 0 and each older row one more. Updating existing statistics with a batch of any size, including one row, gives exactly the statistics of the concatenated data: old statistics discounted by (1-forget)^(rows added) plus the statistics of the new batch. The inputs are left unchanged.",
 ['inputs','histories'],'all design matrices, responses, non-negative weight vectors, forget factors in [0,1), batch sizes >= 1 and all ways of cutting a history into batches',
 'tests compare a few random matrices for a few forget values; the identity must hold for every size, weight and split',
 [S+'gram.py',S+'methods/recursive_least_squares.py',S+'methods/elasticnet.py',S+'methods/ridge.py'],
 [('exponential weight recursion and sqrt-weighted products',S+'gram.py: init_forget_vector, init_gram, init_y_gram'),('discount-then-add updates, single-row and batch branch',S+'gram.py: update_gram, update_y_gram')],
 [('gram','running X\'WX / X\'Wy','estimators: _x_gram, _y_gram')],['return values of the gram functions and of the estimation methods\' init/update calls'])
prop('C02','Recursive inverse Gram stays the inverse of the discounted Gram',
 "The inverse statistic built from a batch is the matrix inverse of the discounted weighted Gram matrix of that batch; if that matrix is singular a ValueError is raised instead of returning a matrix. Updating it with a batch of any size yields the inverse of the updated discounted Gram matrix, each row applied once, in order, with its own weight, so that the least-squares coefficients computed from it solve the normal equations of all data seen.",
 ['inputs','histories'],'all full-rank initial designs, positive or zero weights, forget in [0,1), all update batches and sequences',
 'tests check a few sizes against numpy.linalg.inv; Sherman-Morrison must hold for every state and batch length',
 [S+'gram.py',S+'methods/recursive_least_squares.py'],
 [('Sherman-Morrison rank-one step',S+'gram.py: _update_inverted_gram'),('row by row application',S+'gram.py: update_inverted_gram'),('rank check',S+'gram.py: init_inverted_gram'),('beta = inverse gram times y gram',S+'methods/recursive_least_squares.py: fit_beta, update_beta')])
prop('C03','Coordinate descent steps are exact, box-feasible and terminate',
 "Every coordinate update of the penalised least-squares solver sets that coordinate to the exact minimiser, within the user's lower and upper bounds, of the quadratic loss plus alpha*lambda*|b| plus (1-alpha)*lambda/2*b^2 (penalty only on regularised coordinates), holding the others fixed. The returned coefficients therefore always satisfy the bounds, the first sweep visits every coordinate, later sweeps only the non-zero ones, and the number of sweeps is at least one and at most one more than the iteration limit. A run stopped before the limit ends with a sweep whose largest change is at most tolerance times the largest coefficient, and no argument is modified.",
 ['inputs','configurations'],'all positive-diagonal Gram matrices, start values, penalties, mixing values in [0,1], bounds, tolerances, iteration limits and both selection orders',
 'tests compare the path with sklearn on one data set without bounds; the optimality of each step and the bounds must hold for every input',
 [S+'coordinate_descent.py',S+'methods/ridge.py'],
 [('soft-thresholded coordinate step with clipping',S+'coordinate_descent.py: online_coordinate_descent'),('soft threshold',S+'coordinate_descent.py: soft_threshold')])
prop('C04','Regularisation path: grid, warm starts, early stop, row order',
 "A path fit solves the penalised problem once for every value of a grid of the requested length that decreases geometrically from the largest strength to that strength times the requested ratio; for the pure L1 penalty every regularised coefficient is zero at the largest strength when the path starts from zero. Row i of the result is the solution for the i-th strength started from the previous row, the i-th row of the earlier path, or their average, as configured; when early stopping is active and the start value already has that many non-zero coefficients the row is the start value itself. Bounds are validated against the number of coefficients and default to unbounded, and the arrays passed in are not modified.",
 ['inputs','configurations'],'all Gram statistics, grid lengths and ratios, start-value options, early-stop settings and bound vectors',
 'tests run one data set with default options; every option combination and data set must follow the same contract',
 [S+'coordinate_descent.py',S+'methods/elasticnet.py',S+'methods/lasso_path.py'],
 [('path loop with start-value switch',S+'coordinate_descent.py: online_coordinate_descent_path'),('largest strength',S+'methods/elasticnet.py: _get_lambda_max'),('geometric grid',S+'methods/elasticnet.py: fit_beta_path, update_beta_path'),('bounds',S+'methods/elasticnet.py: _set_and_validate_bounds')])
prop('C05','Scaler moments equal discounted weighted batch moments',
 "After fitting and any sequence of updates, the scaler's mean and variance of every scaled column equal the weighted mean and (population) variance of all rows seen, where a row's weight is its sample weight times (1-forget)^(number of newer rows). How the rows are cut into updates makes no difference, and the observation count equals the total sample weight.",
 ['inputs','histories'],'all data, non-negative sample weights with positive total, forget in [0,1), all splits of the history into one fit and any number of updates',
 'tests compare a handful of random histories with closed forms; recursion errors can appear only for particular weights or batch sizes',
 [S+'scaler.py',S+'gram.py'],
 [('weighted initial moments',S+'scaler.py: fit'),('Welford-type recursion with forgetting',S+'scaler.py: update')],
 [('mean_, var_, _M, _cumulative_w','running moments',S+'scaler.py')])
prop('C06','Scaling is exact, reversible, selective and side-effect free',
 "Transforming subtracts the stored mean and divides by the stored standard deviation in exactly the selected columns and leaves all other columns as they were; the inverse transform undoes it. With scaling switched off both return the data unchanged. Neither call modifies the caller's data or the fitted state.",
 ['inputs','configurations'],'all fitted states with positive variances, all matrices, all column selections (all, none, integer or boolean array)',
 'tests check a few matrices and selections',
 [S+'scaler.py'],[('masked affine map on a copy',S+'scaler.py: transform, inverse_transform'),('selection set-up',S+'scaler.py: _prepare_estimator')])
prop('C07','Link functions: round trip, range and derivatives',
 "For every link function, applying the inverse link to the link of a value inside its support returns that value (up to the documented small offset of the shifted log and square-root links), and the inverse link maps every predictor into the support. Each implemented derivative - of the link, second derivative of the link, and of the inverse link - equals the true derivative of the corresponding function away from the documented numerical clamps.",
 ['inputs'],'all values in the support not below the clamp 1e-10 and not beyond the overflow clamp, all predictors of moderate size, all shift values',
 'tests evaluate each link on a short grid',
 [S+'links/loglinks.py',S+'links/softpluslinks.py',S+'links/sqrtlinks.py',S+'links/logitlinks.py',S+'links/identitylinks.py',S+'links/robust_math.py'],
 [('closed forms',S+'links/*.py'),('clamped elementary functions',S+'links/robust_math.py')])
prop('C08','Scores are the derivatives of the log-density',
 "For every distribution and each of its parameters, the first derivative it reports equals the partial derivative, with respect to that parameter, of the log-density the same distribution reports, at every observation inside the support (including point masses) and every admissible parameter value.",
 ['inputs'],'all 17 distributions, all parameters, all observations in the support and parameters in their support',
 'tests compare with R values on fixed grids for some distributions',
 [S+'distributions/',S+'base/distribution.py'],
 [('hand-written score formulas',S+'distributions/*.py: dl1_dp1'),('density via scipy parameter mapping or explicit formula',S+'distributions/*.py: theta_to_scipy_params, logpdf')])
prop('C09','Second derivatives match the information and give valid weights',
 "For every distribution and parameter the reported second derivative equals the parameter's (expected, observed or squared-score) second-derivative formula of that distribution, and the reported cross derivative that of the pair irrespective of the order in which the pair is given. It is negative wherever the observation carries information on the parameter and never positive, so the Fisher-scoring weights formed from it are never negative; asking for a parameter that does not exist, or a cross derivative of a parameter with itself, raises ValueError.",
 ['inputs'],'all distributions, parameters and pairs, all observations in the support and admissible parameter values',
 'tests compare with R values on fixed grids for some distributions',
 [S+'distributions/',S+'base/distribution.py'],
 [('hand-written information formulas',S+'distributions/*.py: dl2_dp2, dl2_dpp'),('argument validation',S+'base/distribution.py: _validate_dln_dpn_inputs, _validate_dl2_dpp_inputs')])
prop('C10','Density, distribution and quantile functions are coherent',
 "For every distribution the log-density is the logarithm of the density, the log-distribution function the logarithm of the distribution function, the latter increases from 0 to 1 with the density as its derivative (and the point masses as its jumps), and the quantile function is its generalised inverse; outside the support the density is zero. The mean and median reported are those of this distribution, and random draws have shape (observations, draws) and lie in the support.",
 ['inputs'],'all distributions, all parameter values, observations and probabilities',
 'tests compare with R on fixed grids for some distributions and functions',
 [S+'distributions/',S+'base/distribution.py'],
 [('scipy mapping',S+'base/distribution.py: ScipyMixin'),('mixed-distribution formulas',S+'distributions/betainflated.py, betainflatedzero.py, zeroadjustedgamma.py'),('explicit log-normal formulas',S+'distributions/lognormal.py')])
prop('C11','Starting values lie in the parameter space',
 "For every distribution and every non-degenerate sample inside its support, the starting values form one row per observation and one column per parameter, with every entry inside that parameter's support, and are those of the documented moment-type estimates of the whole sample. Conditional starting values change only the requested and later parameters and do not modify the values passed in.",
 ['inputs'],'all distributions and all samples of at least two distinct observations in the support',
 'tests fit a few samples; inadmissible starting values show only for particular samples',
 [S+'distributions/',S+'base/distribution.py'],
 [('moment formulas',S+'distributions/*.py: initial_values'),('conditional maximum likelihood',S+'base/distribution.py: calculate_conditional_initial_values')])
prop('C12','Information criteria follow their formulas',
 "The information criteria equal -2l+2p (AIC), -2l+2pn/(n-p-1) (corrected AIC, undefined and rejected when n-p-1 is zero), -2l+p*log(n) (BIC), -2l+2p*log(log(n)) (HQC) and -l (largest model), elementwise for vectors of models, and from a residual sum of squares they use the Gaussian log-likelihood -n/2*(log(rss/n)+1+log(2*pi)). An unknown criterion raises ValueError.",
 ['inputs','configurations'],'all numbers of observations and parameters (also fractional, also arrays), log-likelihoods and residual sums of squares',
 'there is no dedicated test for this class',
 [S+'information_criteria.py'],[('criterion switch',S+'information_criteria.py: from_ll, from_rss')])
prop('C13','Effective sample size and running mean under forgetting',
 "The effective number of observations equals the sum of the exponential weights, (1-(1-forget)^n)/forget, or n without forgetting. Updating a running mean with one value or an array of values gives exactly the exponentially weighted mean of all values seen (the plain mean without forgetting) when the running mean was one, where the count passed includes the new values; inputs are not modified.",
 ['inputs','histories'],'all forget factors in [0,1), counts, values and batch lengths',
 'there is no dedicated test for these helpers',
 [S+'utils.py'],[('closed forms and recursion',S+'utils.py: calculate_effective_training_length, online_mean_update')])
prop('C14','Online least squares equals weighted least squares on all data',
 "With ordinary least squares and scaling off, the linear model's coefficients after fitting and any sequence of updates solve the normal equations of all data seen, every row weighted by its sample weight times (1-forget)^(number of newer rows); with scaling on the same holds with the rows of each batch scaled by the moments of all data up to and including that batch. Predictions are the (scaled) design row, with a leading one exactly when an intercept is fitted, times the coefficients. The observation count is the total sample weight and the effective length follows from it.",
 ['inputs','histories','configurations'],'all full-rank data, weights, forget in [0,1), intercept on or off, all splits into one fit and updates',
 'tests compare online with batch fits on a few data sets',
 [S+'estimators/online_linear_model.py',S+'methods/recursive_least_squares.py',S+'gram.py',S+'design_matrix.py'],
 [('gram initialisation/update and beta',S+'estimators/online_linear_model.py: fit, update'),('design',S+'estimators/online_linear_model.py: get_design_matrix; design_matrix.py: add_intercept')],
 [('_x_gram,_y_gram','running statistics','OnlineLinearModel')])
prop('C15','The linear model selects the criterion-optimal row of its path',
 "With a path-based method the linear model's coefficients are the row of its coefficient path with the smallest information criterion, computed from the residual sum of squares, the number of non-zero coefficients of the row and the effective sample size; the first such row wins. In that sum every observation counts with its sample weight, older observations are discounted by (1-forget) per newer observation - also across updates of any batch length - and path predictions are the design rows times every path row. The online lasso model is the linear model with the lasso path of its options.",
 ['inputs','histories','configurations'],'all data, weights, forget factors, criteria and histories',
 'tests never check which row is selected',
 [S+'estimators/online_linear_model.py',S+'information_criteria.py'],
 [('residual sums and argmin',S+'estimators/online_linear_model.py: fit, update'),('is_regularized mask',S+'estimators/online_linear_model.py: fit')])
prop('C16','Each scoring step is the weighted regression of the working response',
 "While fitting, each coefficient estimate of a distribution parameter is the configured estimation method applied to the weighted Gram statistics of the design of that parameter and the working response, with weight = sample weight times clipped Fisher weight -l''*(dtheta/deta)^2 and working response = eta + l'*(dtheta/deta)/weight, all evaluated at the current parameter values of all parameters, discounted with that parameter's own forget factor. The fitted values kept afterwards are the inverse link of the linear predictor of these coefficients (damped by the step size while fitting), for this parameter only.",
 ['inputs','configurations','histories'],'all distributions, estimation methods, data, weights, forget factors, step sizes and iteration limits',
 'tests compare final coefficients with R for a few distributions and data sets',
 [S+'estimators/online_gamlss.py'],
 [('inner fit loop',S+'estimators/online_gamlss.py: _inner_fit'),('inner update loop',S+'estimators/online_gamlss.py: _inner_update')])
prop('C17','An update absorbs new data exactly once',
 "Updating a distributional regression adds the new batch to the stored statistics of each distribution parameter exactly once, discounted by that parameter's own forget factor per new row, however many inner and outer iterations the update takes and in whatever order parameters are visited; every iteration restarts from the statistics stored before the update. Observation count, effective length, scaler and stored deviance (old deviance times (1-forget of the first parameter)^(rows) plus the deviance of the new rows) advance exactly once as well.",
 ['inputs','histories','configurations'],'all fitted models, update batches, iteration limits, parameter orders and sequences of updates',
 'tests update with default options on a few data sets; double counting appears only for more than one iteration',
 [S+'estimators/online_gamlss.py'],
 [('old/new statistics pairs',S+'estimators/online_gamlss.py: update, _inner_update'),('deviance discount',S+'estimators/online_gamlss.py: _outer_update')],
 [('_x_gram/_x_gram_new, _y_gram/_y_gram_new','statistics before and during an update',S+'estimators/online_gamlss.py')])
prop('C18','Predictions are the inverse link of the linear predictors',
 "Predicted distribution parameters equal, for each parameter, the inverse link of the product of that parameter's design - exactly the columns its equation names, in order, after scaling, with a leading one exactly when an intercept is fitted - and its coefficients; asking for the link scale returns the linear predictors, contributions sum to them, and any other request raises ValueError. Mean, median and quantile predictions are the mean, median and quantiles of the distribution at these parameters, one row per observation, and predicting changes neither the model nor the data.",
 ['inputs','configurations'],'all fitted models, equations, data and quantile requests',
 'tests predict for a few models and never compare designs column by column',
 [S+'estimators/online_gamlss.py'],
 [('design construction',S+'estimators/online_gamlss.py: make_model_array, get_J_from_equation'),('prediction',S+'estimators/online_gamlss.py: predict*')])
prop('C19','Invalid responses are rejected before any state changes',
 "If any response lies outside the closed range a distribution declares as its support, fitting and updating a distributional regression raise the out-of-support error, and a rejected update leaves the fitted model - coefficients, statistics, scaler, counts - exactly as it was, so that predictions and later updates are unaffected. Responses inside the range, including its end points, are accepted.",
 ['inputs','histories'],'all distributions, fitted states and responses',
 'tests check that an error is raised for a few values, not that the state is untouched',
 [S+'estimators/online_gamlss.py',S+'error.py'],
 [('support check before mutation',S+'estimators/online_gamlss.py: _validate_inputs, fit, update')])
prop('C20','Iterations respect their limits and stopping rules',
 "Fitting and updating a distributional regression perform, for a minimum not above the maximum, at least the configured minimum and at most the configured maximum number of outer iterations, visiting every distribution parameter in each, in the configured order, with at most the configured number of inner iterations each. The outer loop stops, once past the minimum, as soon as the absolute or relative change of the deviance falls below its tolerance or the limit is reached; fitting also stops when the deviance has increased. A cautious update may only raise the minimum, to at most four and never beyond the maximum, for batches of any length.",
 ['inputs','configurations'],'all deviance sequences (convergent, increasing or not), limits, tolerances and parameter orders',
 'tests use default limits on well-behaved data',
 [S+'estimators/online_gamlss.py'],
 [('outer loops',S+'estimators/online_gamlss.py: _outer_fit, _outer_update'),('schedules',S+'estimators/online_gamlss.py: _make_iter_schedule, _make_step_size_schedule')])
prop('C21','Options apply per parameter and caller data stays untouched',
 "An option given once applies to every distribution parameter; given as a mapping, each parameter gets its own value and missing ones the default. Each parameter gets its own copy of the estimation method. Constructing, fitting, updating, partially fitting and predicting never modify objects the caller passed in (mappings, arrays, method objects); the first partial fit is a fit and every later one an update.",
 ['inputs','configurations','histories'],'all option values and mappings, all call sequences',
 'tests pass fresh objects and never look at them afterwards',
 [S+'estimators/online_gamlss.py',S+'methods/factory.py',S+'base/estimator.py',S+'utils.py'],
 [('option expansion',S+'estimators/online_gamlss.py: _process_parameter, _process_equation; utils.py: handle_param_dict'),('method copies',S+'methods/factory.py: get_estimation_method'),('partial fit',S+'base/estimator.py: partial_fit')])
prop('C22','Distributional model selection takes the criterion-optimal path row',
 "With a path-based method the coefficients of a distribution parameter are the row of its path with the smallest information criterion, where the number of parameters is the row's non-zero coefficients plus those of the other distribution parameters, and the fit is measured, as configured, by the residual sum of squares of the working response (each observation weighted by sample weight, working weight and forgetting, relative to their mean) or by the log-likelihood of the whole distribution (each observation weighted by sample weight and forgetting). An update adds the new observations to the stored measure discounted by (1-forget) per new observation.",
 ['inputs','histories','configurations'],'all data, paths, weights, forget factors, criteria and selection modes',
 'tests never check which row is selected',
 [S+'estimators/online_gamlss.py',S+'information_criteria.py'],
 [('selection',S+'estimators/online_gamlss.py: _fit_select_model, _update_select_model, _count_nonzero_coef')])
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    import re
    assert p['statement'].count('. ')<=2,(p['id'],p['statement'].count('. '))
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(p) for p in P)+'\n')
print(len(P))
