import numbers
import time
from warnings import warn
import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator
from ...binning.binning_process import _check_selection_criteria
from ...binning.binning_process import _METRICS
from ...binning.binning_process import BaseBinningProcess
from ...exceptions import NotDataAddedError
from ...logging import Logger
from .base import BaseSketch
from .binning_process_sketch_information import print_binning_process_sketch_information
from .binning_sketch import OptimalBinningSketch
logger = Logger(__name__).logger

def _check_parameters(variable_names, max_n_prebins, min_n_bins, max_n_bins, min_bin_size, max_bin_size, max_pvalue, max_pvalue_policy, selection_criteria, categorical_variables, special_codes, split_digits, binning_fit_params, binning_transform_params, verbose):
    if not isinstance(variable_names, (np.ndarray, list)):
        raise TypeError('variable_names must be a list or numpy.ndarray.')
    if not isinstance(max_n_prebins, numbers.Integral) or max_n_prebins <= 1:
        raise ValueError('max_prebins must be an integer greater than 1; got {}.'.format(max_n_prebins))
    if min_n_bins is not None:
        if not isinstance(min_n_bins, numbers.Integral) or min_n_bins <= 0:
            raise ValueError('min_n_bins must be a positive integer; got {}.'.format(min_n_bins))
    if max_n_bins is not None:
        if not isinstance(max_n_bins, numbers.Integral) or max_n_bins <= 0:
            raise ValueError('max_n_bins must be a positive integer; got {}.'.format(max_n_bins))
    if min_n_bins is not None and max_n_bins is not None:
        if min_n_bins > max_n_bins:
            raise ValueError('min_n_bins must be <= max_n_bins; got {} <= {}.'.format(min_n_bins, max_n_bins))
    if min_bin_size is not None:
        if not isinstance(min_bin_size, numbers.Number) or not 0.0 < min_bin_size <= 0.5:
            raise ValueError('min_bin_size must be in (0, 0.5]; got {}.'.format(min_bin_size))
    if max_bin_size is not None:
        if not isinstance(max_bin_size, numbers.Number) or not 0.0 < max_bin_size <= 1.0:
            raise ValueError('max_bin_size must be in (0, 1.0]; got {}.'.format(max_bin_size))
    if min_bin_size is not None and max_bin_size is not None:
        if min_bin_size > max_bin_size:
            raise ValueError('min_bin_size must be <= max_bin_size; got {} <= {}.'.format(min_bin_size, max_bin_size))
    if max_pvalue is not None:
        if not isinstance(max_pvalue, numbers.Number) or not 0.0 < max_pvalue <= 1.0:
            raise ValueError('max_pvalue must be in (0, 1.0]; got {}.'.format(max_pvalue))
    if max_pvalue_policy not in ('all', 'consecutive'):
        raise ValueError('Invalid value for max_pvalue_policy. Allowed string values are "all" and "consecutive".')
    if selection_criteria is not None:
        if not isinstance(selection_criteria, dict):
            raise TypeError('selection_criteria must be a dict.')
    if categorical_variables is not None:
        if not isinstance(categorical_variables, (np.ndarray, list)):
            raise TypeError('categorical_variables must be a list or numpy.ndarray.')
        if not all((isinstance(c, str) for c in categorical_variables)):
            raise TypeError('variables in categorical_variables must be strings.')
    if special_codes is not None:
        if not isinstance(special_codes, (np.ndarray, list)):
            raise TypeError('special_codes must be a list or numpy.ndarray.')
    if split_digits is not None:
        if not isinstance(split_digits, numbers.Integral) or not 0 <= split_digits <= 8:
            raise ValueError('split_digits must be an integer in [0, 8]; got {}.'.format(split_digits))
    if binning_fit_params is not None:
        if not isinstance(binning_fit_params, dict):
            raise TypeError('binning_fit_params must be a dict.')
    if binning_transform_params is not None:
        if not isinstance(binning_transform_params, dict):
            raise TypeError('binning_transform_params must be a dict.')
    if not isinstance(verbose, bool):
        raise TypeError('verbose must be a boolean; got {}.'.format(verbose))

class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):

    def __init__(self, variable_names, max_n_prebins=20, min_n_bins=None, max_n_bins=None, min_bin_size=None, max_bin_size=None, max_pvalue=None, max_pvalue_policy='consecutive', selection_criteria=None, categorical_variables=None, special_codes=None, split_digits=None, binning_fit_params=None, binning_transform_params=None, verbose=False):
        self.variable_names = variable_names
        self.max_n_prebins = max_n_prebins
        self.min_n_bins = min_n_bins
        self.max_n_bins = max_n_bins
        self.min_bin_size = min_bin_size
        self.max_bin_size = max_bin_size
        self.max_pvalue = max_pvalue
        self.max_pvalue_policy = max_pvalue_policy
        self.selection_criteria = selection_criteria
        self.binning_fit_params = binning_fit_params
        self.binning_transform_params = binning_transform_params
        self.special_codes = special_codes
        self.split_digits = split_digits
        self.categorical_variables = categorical_variables
        self.verbose = verbose
        self._target_dtype = 'binary'
        self._n_samples = None
        self._n_variables = None
        self._n_numerical = None
        self._n_categorical = None
        self._n_selected = None
        self._binned_variables = {}
        self._variable_dtypes = {}
        self._variable_stats = {}
        self._support = None
        self._n_add = 0
        self._n_solve = 0
        self._time_streaming_add = 0
        self._time_streaming_solve = 0
        self._is_started = False
        self._is_solved = False
        _check_parameters(**self.get_params())

    def add(self, X, y, check_input=False):
        self._start()
        time_add = time.perf_counter()
        for name in X.columns:
            if name in self.variable_names:
                if self.verbose:
                    logger.info('Add variable: {}.'.format(name))
                self._binned_variables[name].add(X[name], y, check_input)
        self._n_samples += X.shape[0]
        self._n_add += 1
        self._time_streaming_add += time.perf_counter() - time_add
        if self.verbose:
            logger.info('Sketch: added new data.')
        return self

    def information(self, print_level=1):
        self._check_is_solved()
        if not isinstance(print_level, numbers.Integral) or print_level < 0:
            raise ValueError('print_level must be an integer >= 0; got {}.'.format(print_level))
        self._n_selected = np.count_nonzero(self._support)
        dict_user_options = self.get_params()
        print_binning_process_sketch_information(print_level, self._n_samples, self._n_variables, self._target_dtype, self._n_numerical, self._n_categorical, self._n_selected, self._n_add, self._time_streaming_add, self._n_solve, self._time_streaming_solve, dict_user_options)

    def summary(self):
        self._check_is_solved()
        df_summary = pd.DataFrame.from_dict(self._variable_stats).T
        df_summary.reset_index(inplace=True)
        df_summary.rename(columns={'index': 'name'}, inplace=True)
        df_summary['selected'] = self._support
        columns = ['name', 'dtype', 'status', 'selected', 'n_bins']
        columns += _METRICS[self._target_dtype]['metrics']
        return df_summary[columns]

    def merge(self, bpsketch):
        if not self.mergeable(bpsketch):
            raise Exception('bpsketch does not share signature.')
        if bpsketch._is_started:
            self._start()
            for name in self.variable_names:
                self._binned_variables[name].merge(bpsketch._binned_variables[name])
            self._n_samples += bpsketch._n_samples
            self._n_add += bpsketch._n_add
        if self.verbose:
            logger.info('Sketch: current sketch was merged.')

    def mergeable(self, bpsketch):
        return self.get_params() == bpsketch.get_params()

    def solve(self):
        time_init = time.perf_counter()
        if not self._n_add:
            raise NotDataAddedError('No data was added. Add data before solving.')
        self._is_solved = False
        for i, name in enumerate(self.variable_names):
            if self.verbose:
                logger.info('Binning variable ({} / {}): {}.'.format(i, self._n_variables, name))
            self._binned_variables[name].solve()
        if self.verbose:
            logger.info('Binning process variable selection...')
        self._binning_selection_criteria()
        self._time_streaming_solve += time.perf_counter() - time_init
        self._n_solve += 1
        self._is_solved = True
        return self

    def transform(self, X, metric='woe', metric_special=0, metric_missing=0, show_digits=2, check_input=False):
        self._check_is_solved()
        if not isinstance(X, pd.DataFrame):
            raise TypeError('X must be a pandas.DataFrame.')
        n_samples, n_variables = X.shape
        if metric not in ('event_rate', 'woe'):
            raise ValueError('Invalid value for metric. Allowed string values are "event_rate" and "woe".')
        mask = self.get_support()
        if not mask.any():
            warn('No variables were selected: either the data is too noisy or the selection_criteria too strict.', UserWarning)
            return np.empty(0).reshape((n_samples, 0))
        selected_variables = self.get_support(names=True)
        for name in selected_variables:
            if name not in X.columns:
                raise ValueError('Selected variable {} must be a column in the input dataframe.'.format(name))
        n_selected_variables = len(selected_variables)
        if metric == 'indices':
            X_transform = np.full((n_samples, n_selected_variables), -1, dtype=int)
        elif metric == 'bins':
            X_transform = np.full((n_samples, n_selected_variables), '', dtype=object)
        else:
            X_transform = np.zeros((n_samples, n_selected_variables))
        for i, name in enumerate(selected_variables):
            optb = self._binned_variables[name]
            x = X[name]
            params = {}
            if self.binning_transform_params is not None:
                params = self.binning_transform_params.get(name, {})
            metric_special_var = params.get('metric_special', metric_special)
            metric_missing_var = params.get('metric_missing', metric_missing)
            tparams = {'x': x, 'metric': metric, 'metric_special': metric_special_var, 'metric_missing': metric_missing_var, 'check_input': check_input, 'show_digits': show_digits}
            if metric is not None:
                tparams['metric'] = params.get('metric', metric)
            else:
                tparams.pop('metric')
            X_transform[:, i] = optb.transform(**tparams)
        return pd.DataFrame(X_transform, columns=selected_variables, index=X.index)

    def _start(self):
        if self._is_started:
            return
        self._n_samples = 0
        self._n_variables = len(self.variable_names)
        if self.categorical_variables is not None:
            self._n_categorical = len(self.categorical_variables)
        else:
            self._n_categorical = 0
        self._n_numerical = self._n_variables - self._n_categorical
        if self.selection_criteria is not None:
            _check_selection_criteria(self.selection_criteria, self._target_dtype)
        for name in self.variable_names:
            if self.categorical_variables is not None and name in self.categorical_variables:
                dtype = 'categorical'
            else:
                dtype = 'numerical'
            optb = OptimalBinningSketch(name=name, dtype=dtype, max_n_prebins=self.max_n_prebins, min_n_bins=self.min_n_bins, max_n_bins=self.max_n_bins, min_bin_size=self.min_bin_size, max_bin_size=self.max_bin_size, max_pvalue=self.max_pvalue, max_pvalue_policy=self.max_pvalue_policy, special_codes=self.special_codes, split_digits=self.split_digits)
            if self.binning_fit_params is not None:
                params = self.binning_fit_params.get(name, {})
            else:
                params = {}
            optb.set_params(**params)
            self._variable_dtypes[name] = dtype
            self._binned_variables[name] = optb
        self._is_started = True

    def get_binned_variable(self, name):
        self._check_is_solved()
        if not isinstance(name, str):
            raise TypeError('name must be a string.')
        if name in self.variable_names:
            return self._binned_variables[name]
        else:
            raise ValueError('name {} does not match a binned variable.'.format(name))

    def get_support(self, indices=False, names=False):
        self._check_is_solved()
        if indices and names:
            raise ValueError('Only indices or names can be True.')
        mask = self._support
        if indices:
            return np.where(mask)[0]
        elif names:
            return np.asarray(self.variable_names)[mask]
        else:
            return mask
