import time
import numpy as np
from ...binning.binning_statistics import target_info_special_continuous
from ...logging import Logger
from .base import _check_parameters
from .base import BasePWBinning
from .binning_statistics import PWContinuousBinningTable
from .metrics import continuous_metrics
from .transformations import transform_continuous_target
logger = Logger(__name__).logger

class ContinuousOptimalPWBinning(BasePWBinning):

    def __init__(self, name='', objective='l2', degree=1, continuous=True, continuous_deriv=True, prebinning_method='cart', max_n_prebins=20, min_prebin_size=0.05, min_n_bins=None, max_n_bins=None, min_bin_size=None, max_bin_size=None, monotonic_trend='auto', n_subsamples=None, max_pvalue=None, max_pvalue_policy='consecutive', outlier_detector=None, outlier_params=None, user_splits=None, user_splits_fixed=None, special_codes=None, split_digits=None, solver='auto', h_epsilon=1.35, quantile=0.5, regularization=None, reg_l1=1.0, reg_l2=1.0, random_state=None, verbose=False):
        super().__init__(name, None, objective, degree, continuous, continuous_deriv, prebinning_method, max_n_prebins, min_prebin_size, min_n_bins, max_n_bins, min_bin_size, max_bin_size, monotonic_trend, n_subsamples, max_pvalue, max_pvalue_policy, outlier_detector, outlier_params, user_splits, user_splits_fixed, special_codes, split_digits, solver, h_epsilon, quantile, regularization, reg_l1, reg_l2, random_state, verbose)
        self._problem_type = 'regression'
        self._n_records_missing = None
        self._n_records_special = None
        self._sum_special = None
        self._sum_missing = None
        self._std_special = None
        self._std_missing = None
        self._min_target_missing = None
        self._min_target_special = None
        self._max_target_missing = None
        self._max_target_special = None
        self._n_zeros_missing = None
        self._n_zeros_special = None

    def fit_transform(self, x, y, metric_special=0, metric_missing=0, lb=None, ub=None, check_input=False):
        return self.fit(x, y, lb, ub, check_input).transform(x, metric_special, metric_missing, lb, ub, check_input)

    def transform(self, x, metric_special=0, metric_missing=0, lb=None, ub=None, check_input=False):
        self._check_is_fitted()
        return transform_continuous_target(self._optb.splits, x, self._c, lb, ub, self._n_records_special, self._sum_special, self._n_records_missing, self._sum_missing, self.special_codes, metric_special, metric_missing, check_input)

    def _fit(self, x, y, lb, ub, check_input):
        time_init = time.perf_counter()
        if self.verbose:
            logger.info('Optimal piecewise binning started.')
            logger.info('Options: check parameters.')
        _check_parameters(**self.get_params(deep=False), estimator=None, problem_type=self._problem_type)
        self._is_fitted = False
        if self.verbose:
            logger.info('Pre-processing started.')
        self._n_samples = len(x)
        if self.verbose:
            logger.info('Pre-processing: number of samples: {}'.format(self._n_samples))
        time_preprocessing = time.perf_counter()
        [x_clean, y_clean, x_missing, y_missing, x_special, y_special, _, _, _, _, _, sw_special, _] = self._fit_preprocessing(x, y, check_input)
        self._time_preprocessing = time.perf_counter() - time_preprocessing
        if self.verbose:
            n_clean = len(x_clean)
            n_missing = len(x_missing)
            n_special = len(x_special)
            logger.info('Pre-processing: number of clean samples: {}'.format(n_clean))
            logger.info('Pre-processing: number of missing samples: {}'.format(n_missing))
            logger.info('Pre-processing: number of special samples: {}'.format(n_special))
            if self.outlier_detector is not None:
                n_outlier = self._n_samples - (n_clean + n_missing + n_special)
                logger.info('Pre-processing: number of outlier samples: {}'.format(n_outlier))
            logger.info('Pre-processing terminated. Time: {:.4f}s'.format(self._time_preprocessing))
        self._time_estimator = 0
        self._fit_binning(x_clean, y_clean, y_clean, lb, ub)
        if self.verbose:
            logger.info('Post-processing started.')
            logger.info('Post-processing: compute binning information.')
        time_postprocessing = time.perf_counter()
        [self._n_records_special, self._sum_special, self._n_zeros_special, self._std_special, self._min_target_special, self._max_target_special] = target_info_special_continuous(self.special_codes, x_special, y_special, sw_special)
        self._n_records_missing = len(y_missing)
        self._sum_missing = np.sum(y_missing)
        self._n_zeros_missing = np.count_nonzero(y_missing == 0)
        if len(y_missing):
            self._std_missing = np.std(y_missing)
            self._min_target_missing = np.min(y_missing)
            self._max_target_missing = np.max(y_missing)
        else:
            self._std_missing = None
            self._min_target_missing = None
            self._max_target_missing = None
        bt = self._optb.binning_table.build(add_totals=False)
        n_records = bt['Count'].values[:-2]
        sums = bt['Sum'].values[:-2]
        stds = bt['Std'].values[:-2]
        min_target = bt['Min'].values[:-2]
        max_target = bt['Max'].values[:-2]
        n_zeros = bt['Zeros count'].values[:-2]
        n_records = np.r_[n_records, self._n_records_special]
        sums = np.r_[sums, self._sum_special]
        stds = np.r_[stds, self._std_special]
        min_target = np.r_[min_target, self._min_target_special]
        max_target = np.r_[max_target, self._max_target_special]
        n_zeros = np.r_[n_zeros, self._n_zeros_special]
        n_records = np.r_[n_records, self._n_records_missing]
        sums = np.r_[sums, self._sum_missing]
        stds = np.r_[stds, self._std_missing]
        min_target = np.r_[min_target, self._min_target_missing]
        max_target = np.r_[max_target, self._max_target_missing]
        n_zeros = np.r_[n_zeros, self._n_zeros_missing]
        if self.verbose:
            logger.info('Post-processing: compute performance metrics.')
        d_metrics = continuous_metrics(x_clean, y_clean, self._optb.splits, self._c, lb, ub, self._n_records_special, self._sum_special, self._n_records_missing, self._sum_missing, self.special_codes)
        self._binning_table = PWContinuousBinningTable(self.name, self.special_codes, self._optb.splits, self._c, n_records, sums, stds, min_target, max_target, n_zeros, lb, ub, x_clean.min(), x_clean.max(), d_metrics)
        self._time_postprocessing = time.perf_counter() - time_postprocessing
        if self.verbose:
            logger.info('Post-processing terminated. Time: {:.4f}s'.format(self._time_postprocessing))
        self._time_total = time.perf_counter() - time_init
        if self.verbose:
            logger.info('Optimal piecewise binning terminated. Status: {}. Time: {:.4f}s'.format(self._status, self._time_total))
        self._is_fitted = True
        return self
