import numpy as np

def model_data(scorecard, x, special_missing):
    s_vars = scorecard.binning_process_.get_support(names=True)
    sc = scorecard.table(style='detailed')
    metric_name = 'WoE' if scorecard._target_dtype == 'binary' else 'Mean'
    nbins = []
    metric = []
    indices = []
    for i, v in enumerate(s_vars):
        metric_i = np.array(sc[sc.Variable == v][metric_name], dtype=float)
        optb = scorecard.binning_process_.get_binned_variable(v)
        if isinstance(optb.special_codes, dict):
            n_specials = len(optb.special_codes)
        else:
            n_specials = 1
        if not special_missing:
            metric_i = metric_i[:-(n_specials + 1)]
        else:
            if scorecard._metric_special != 'empirical':
                metric_i[-(n_specials + 1):-1] = scorecard._metric_special
            if scorecard._metric_missing != 'empirical':
                metric_i[-1] = scorecard._metric_missing
        _metric = []
        _indices = []
        for j, m in enumerate(metric_i):
            if m != x[i]:
                _indices.append(j)
                _metric.append(m)
        metric.append(_metric)
        nbins.append(len(_metric))
        indices.append(_indices)
    return (nbins, metric, indices)
