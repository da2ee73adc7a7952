import numpy as np
from sklearn.preprocessing import KBinsDiscretizer
from sklearn.tree import _tree
from sklearn.tree import DecisionTreeClassifier
from sklearn.tree import DecisionTreeRegressor
from .mdlp import MDLP

class PreBinning:

    def __init__(self, problem_type, method, n_bins, min_bin_size, class_weight=None, **kwargs):
        self.problem_type = problem_type
        self.method = method
        self.n_bins = n_bins
        self.min_bin_size = min_bin_size
        self.class_weight = class_weight
        self.kwargs = kwargs
        self._splits = None

    def fit(self, x, y, sample_weight=None):
        if self.method not in ('uniform', 'quantile', 'cart', 'mdlp'):
            raise ValueError('Invalid value for prebinning method. Allowed string values are "cart", "mdlp", "quantile" and "uniform".')
        if self.problem_type not in ('classification', 'regression'):
            raise ValueError('Invalid value for problem_type. Allowed string values are "classification" and "regression".')
        if self.problem_type == 'regression' and self.method == 'mdlp':
            raise ValueError('mdlp method can only handle binary classification problems.')
        if self.method in ('uniform', 'quantile'):
            unsup_kwargs = {'n_bins': self.n_bins, 'strategy': self.method}
            if 'random_state' in KBinsDiscretizer().get_params():
                unsup_kwargs['random_state'] = 0
            unsup_kwargs.update(**self.kwargs)
            est = KBinsDiscretizer(**unsup_kwargs)
            est.fit(x.reshape(-1, 1), y)
            self._splits = est.bin_edges_[0][1:-1]
        elif self.method == 'cart':
            cart_kwargs = {'min_samples_leaf': self.min_bin_size, 'max_leaf_nodes': self.n_bins}
            if self.problem_type == 'classification':
                cart_kwargs['class_weight'] = self.class_weight
                cart_kwargs.update(**self.kwargs)
                est = DecisionTreeClassifier(**cart_kwargs)
            else:
                cart_kwargs.update(**self.kwargs)
                est = DecisionTreeRegressor(**cart_kwargs)
            est.fit(x.reshape(-1, 1), y, sample_weight=sample_weight)
            mask = est.tree_.feature != _tree.TREE_UNDEFINED
            self._splits = np.unique(est.tree_.threshold[mask])
        elif self.method == 'mdlp':
            mdlp_kwargs = {'min_samples_leaf': self.min_bin_size}
            mdlp_kwargs.update(**self.kwargs)
            est = MDLP(**mdlp_kwargs)
            est.fit(x, y)
            self._splits = est.splits
        return self

    @property
    def splits(self):
        return self._splits
