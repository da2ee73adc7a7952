from abc import ABCMeta
from abc import abstractmethod
from sklearn.base import BaseEstimator
from sklearn.exceptions import NotFittedError

class Base:

    def _check_is_fitted(self):
        if not self._is_fitted:
            raise NotFittedError("This {} instance is not fitted yet. Call 'fit' with appropriate arguments.".format(self.__class__.__name__))

class BaseOptimalBinning(Base, BaseEstimator, metaclass=ABCMeta):

    @abstractmethod
    def fit(self):
        pass

    @abstractmethod
    def fit_transform(self):
        pass

    @abstractmethod
    def transform(self):
        pass

    @abstractmethod
    def information(self):
        pass

    @property
    @abstractmethod
    def binning_table(self):
        pass

    @property
    @abstractmethod
    def splits(self):
        pass

    @property
    @abstractmethod
    def status(self):
        pass
