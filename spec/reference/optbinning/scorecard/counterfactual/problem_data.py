import numpy as np

def problem_data(scorecard, X):
    s_vars = X.columns
    n_vars = X.shape[1]
    sc = scorecard.table(style='detailed')
    if scorecard._target_dtype == 'binary':
        sc['Points'] = sc['WoE'] * sc['Coefficient']
    else:
        sc['Points'] = sc['Mean'] * sc['Coefficient']
    if isinstance(scorecard.estimator_.intercept_, np.ndarray):
        intercept = float(scorecard.estimator_.intercept_[0])
    else:
        intercept = float(scorecard.estimator_.intercept_)
    coef = scorecard.estimator_.coef_.ravel()
    min_p = 0
    max_p = 0
    wrange = np.empty(n_vars)
    for i, v in enumerate(s_vars):
        v_points = sc[sc['Variable'] == v]['Points']
        _min = np.min(v_points)
        _max = np.max(v_points)
        min_p += _min
        max_p += _max
        wrange[i] = 1.0 / (_max - _min)
    min_p += intercept
    max_p += intercept
    Xt = scorecard.binning_process_.transform(X, metric_special=scorecard._metric_special, metric_missing=scorecard._metric_missing).values
    F = np.linalg.cholesky(np.linalg.inv(np.cov(Xt.T)))
    mu = Xt.mean(axis=0)
    return (intercept, coef, min_p, max_p, wrange, F, mu)
