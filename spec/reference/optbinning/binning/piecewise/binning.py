import time
import numpy as np
from sklearn.base import clone
from sklearn.linear_model import LogisticRegression
from ...binning.binning_statistics import target_info
from ...binning.binning_statistics import target_info_special
from ...logging import Logger
from .base import _check_parameters
from .base import BasePWBinning
from .binning_statistics import PWBinningTable
from .metrics import binary_metrics
from .transformations import transform_binary_target
logger = Logger(__name__).logger

class OptimalPWBinning(BasePWBinning):

    def __init__(self, name='', estimator=None, objective='l2', degree=1, continuous=True, continuous_deriv=True, prebinning_method='cart', max_n_prebins=20, min_prebin_size=0.05, min_n_bins=None, max_n_bins=None, min_bin_size=None, max_bin_size=None, monotonic_trend='auto', n_subsamples=None, max_pvalue=None, max_pvalue_policy='consecutive', outlier_detector=None, outlier_params=None, user_splits=None, user_splits_fixed=None, special_codes=None, split_digits=None, solver='auto', h_epsilon=1.35, quantile=0.5, regularization=None, reg_l1=1.0, reg_l2=1.0, random_state=None, verbose=False):
        super().__init__(name, estimator, objective, degree, continuous, continuous_deriv, prebinning_method, max_n_prebins, min_prebin_size, min_n_bins, max_n_bins, min_bin_size, max_bin_size, monotonic_trend, n_subsamples, max_pvalue, max_pvalue_policy, outlier_detector, outlier_params, user_splits, user_splits_fixed, special_codes, split_digits, solver, h_epsilon, quantile, regularization, reg_l1, reg_l2, random_state, verbose)
        self._problem_type = 'classification'
        self._n_nonevent_special = None
        self._n_nonevent_missing = None
        self._n_event_special = None
        self._n_event_missing = None
        self._t_n_nonevent = None
        self._t_n_event = None

    def fit_transform(self, x, y, metric='woe', metric_special=0, metric_missing=0, lb=None, ub=None, check_input=False):
        return self.fit(x, y, lb, ub, check_input).transform(x, metric, metric_special, metric_missing, lb, ub, check_input)

    def transform(self, x, metric='woe', metric_special=0, metric_missing=0, lb=None, ub=None, check_input=False):
        self._check_is_fitted()
        return transform_binary_target(self._optb.splits, x, self._c, lb, ub, self._t_n_nonevent, self._t_n_event, self._n_nonevent_special, self._n_event_special, self._n_nonevent_missing, self._n_event_missing, self.special_codes, metric, metric_special, metric_missing, check_input)

    def _fit(self, x, y, lb, ub, check_input):
        time_init = time.perf_counter()
        if self.verbose:
            logger.info('Optimal piecewise binning started.')
            logger.info('Options: check parameters.')
        _check_parameters(**self.get_params(deep=False), problem_type=self._problem_type)
        self._is_fitted = False
        if self.verbose:
            logger.info('Pre-processing started.')
        self._n_samples = len(x)
        if self.verbose:
            logger.info('Pre-processing: number of samples: {}'.format(self._n_samples))
        time_preprocessing = time.perf_counter()
        [x_clean, y_clean, x_missing, y_missing, x_special, y_special, _, _, _, _, _, sw_special, _] = self._fit_preprocessing(x, y, check_input)
        self._time_preprocessing = time.perf_counter() - time_preprocessing
        if self.verbose:
            n_clean = len(x_clean)
            n_missing = len(x_missing)
            n_special = len(x_special)
            logger.info('Pre-processing: number of clean samples: {}'.format(n_clean))
            logger.info('Pre-processing: number of missing samples: {}'.format(n_missing))
            logger.info('Pre-processing: number of special samples: {}'.format(n_special))
            if self.outlier_detector is not None:
                n_outlier = self._n_samples - (n_clean + n_missing + n_special)
                logger.info('Pre-processing: number of outlier samples: {}'.format(n_outlier))
            logger.info('Pre-processing terminated. Time: {:.4f}s'.format(self._time_preprocessing))
        time_estimator = time.perf_counter()
        estimator = self.estimator
        if estimator is None:
            estimator = LogisticRegression()
            if self.verbose:
                logger.info('Pre-binning: set logistic regression as an estimator.')
        else:
            estimator = clone(estimator, safe=False)
        if self.verbose:
            logger.info('Pre-binning: estimator fitting started.')
        estimator.fit(x_clean.reshape(-1, 1), y_clean)
        event_rate = estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
        self._time_estimator = time.perf_counter() - time_estimator
        if self.verbose:
            logger.info('Pre-binning: estimator terminated. Time {:.4f}s.'.format(self._time_estimator))
        self._fit_binning(x_clean, y_clean, event_rate, lb, ub)
        if self.verbose:
            logger.info('Post-processing started.')
            logger.info('Post-processing: compute binning information.')
        time_postprocessing = time.perf_counter()
        self._n_nonevent_special, self._n_event_special = target_info_special(self.special_codes, x_special, y_special, sw_special)
        missing_target_info = target_info(y_missing)
        self._n_nonevent_missing = missing_target_info[0]
        self._n_event_missing = missing_target_info[1]
        bt = self._optb.binning_table.build(add_totals=False)
        n_nonevent = bt['Non-event'].values[:-2]
        n_event = bt['Event'].values[:-2]
        n_nonevent = np.r_[n_nonevent, self._n_nonevent_special]
        n_event = np.r_[n_event, self._n_event_special]
        n_nonevent = np.r_[n_nonevent, self._n_nonevent_missing]
        n_event = np.r_[n_event, self._n_event_missing]
        self._t_n_nonevent = n_nonevent.sum()
        self._t_n_event = n_event.sum()
        if self.verbose:
            logger.info('Post-processing: compute performance metrics.')
        d_metrics = binary_metrics(x_clean, y_clean, self._optb.splits, self._c, self._t_n_nonevent, self._t_n_event, self._n_nonevent_special, self._n_event_special, self._n_nonevent_missing, self._n_event_missing, self.special_codes)
        self._binning_table = PWBinningTable(self.name, self.special_codes, self._optb.splits, self._c, n_nonevent, n_event, x_clean.min(), x_clean.max(), d_metrics)
        self._time_postprocessing = time.perf_counter() - time_postprocessing
        if self.verbose:
            logger.info('Post-processing terminated. Time: {:.4f}s'.format(self._time_postprocessing))
        self._time_total = time.perf_counter() - time_init
        if self.verbose:
            logger.info('Optimal piecewise binning terminated. Status: {}. Time: {:.4f}s'.format(self._status, self._time_total))
        self._is_fitted = True
        return self
